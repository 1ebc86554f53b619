------------------------------ MODULE PoolsTrace ------------------------------
EXTENDS Pools, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<pvars, l>>
Init == l = 0 /\ size = <<>> /\ of = <<>> /\ home = <<>> /\ busy = <<>> /\ mate = <<>> /\ due = <<>>
Skip == UNCHANGED pvars

Step(r) ==
    CASE r.e = "run" -> PReset
      [] r.e = "pool" -> NewPool(r.p, r.n)
      [] r.e = "mk" -> NewBlock(r.b)
      [] r.e = "set" -> Moving(r.b, r.p)
      [] r.e = "setdone" -> Moved(r.b, r.p)
      [] r.e = "in" -> Begin(r.b, r.t)
      [] r.e = "out" -> End(r.b, r.t)
      [] r.e = "kick" -> Kick(r.b, r.n)
      [] r.e = "settled" -> r.done /\ Settled(r.live) /\ Skip
      [] r.e = "freed" -> Freed(r.b)
      [] r.e = "end" -> r.live = 1 /\ DOMAIN busy = {} /\ Skip
      [] OTHER -> FALSE

Next == l < Len(Trace) /\ Step(Trace[l + 1]) /\ l' = l + 1
Spec == Init /\ [][Next]_tvars
Accepted ==
    LET d == TLCGet("stats").diameter - 1
    IN IF d = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d + 1, Trace[d + 1].e>>) /\ FALSE
=============================================================================
