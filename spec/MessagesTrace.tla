----------------------------- MODULE MessagesTrace ----------------------------
(* Checks messages, signals, slots, probes and calls of a recorded run against  *)
(* Messages.                                                                    *)
EXTENDS Messages, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bi
tvars == <<mvars, l, bi>>
ToSet(s) == {s[k] : k \in DOMAIN s}

Init == /\ l = 0 /\ bi = <<>> /\ mon = {} /\ msoft = {} /\ mq = <<>> /\ now = 0 /\ ret = <<>> /\ tok = {} /\ fresh = {} /\ before = {} /\ posted = <<>> /\ taken = <<>>

Run(r) ==
    /\ MReset(ToSet(r.ins) \cup ToSet(r.slots), ToSet(r.outs) \cup ToSet(r.sigs))
    /\ bi' = [b \in ToSet(r.blocks) |-> r.bi[CHOOSE k \in DOMAIN r.bi : r.bi[k].b = b]]

\* a probe takes its trigger and posts the result at once
Probed(r) ==
    /\ \E f \in Fronts(r.i, r.x, r.y) :
         LET q1 == [mq EXCEPT ![r.i] = [@ EXCEPT ![f[1]] = SubSeq(@, f[2] + 1, Len(@))]]
         IN mq' = [i \in DOMAIN q1 |->
                     IF i \in Receivers(r.o) \cup Unsure(r.o)
                     THEN [q1[i] EXCEPT ![r.o] = Append(@, [x |-> r.z, y |-> "", opt |-> i \in Unsure(r.o), at |-> now])]
                     ELSE q1[i]]
    /\ taken' = [taken EXCEPT ![r.i] = @ + 1]
    /\ posted' = [posted EXCEPT ![r.o] = @ + 1]
    /\ tok' = tok \cap AllIds(mq')
    /\ fresh' = fresh \ {r.o}
    /\ now' = now + 1 /\ ret' = ret
    /\ UNCHANGED <<mon, msoft, before>>

Idle(r) ==
    /\ \A k \in DOMAIN r.ins : LET p == r.ins[k] IN
        /\ p.msgs = taken[p.p]
        /\ p.enqm >= Cardinality(Sure(p.p)) /\ p.enqm <= Cardinality(InBox(p.p))
        /\ Drained(p.p)
    /\ \A k \in DOMAIN r.outs : LET p == r.outs[k] IN p.msgs = posted[p.p]
    /\ \A i \in DOMAIN mq : (\E c \in mon : c[2] = i) => Drained(i)

Skip == UNCHANGED <<mvars, bi>>

Step(r) ==
    CASE r.e = "run" -> Run(r)
      [] r.e = "post" -> (r.tot = -1 \/ r.tot = posted[r.o]) /\ Post(r.o, r.x, r.y) /\ UNCHANGED bi
      [] r.e = "posted" -> Posted(r.x) /\ UNCHANGED bi
      [] r.e = "pop" -> Take(r.i, r.x, r.y) /\ r.tot = taken'[r.i] /\ UNCHANGED bi
      [] r.e = "peek" -> Peek(r.i, r.x, r.y) /\ UNCHANGED bi
      [] r.e = "slot" -> Take(r.i, r.x, r.y) /\ UNCHANGED bi
      [] r.e = "probed" -> Probed(r) /\ UNCHANGED bi
      [] r.e = "wm" -> Work(ToSet(bi[r.b].outs) \cup ToSet(bi[r.b].sigs)) /\ UNCHANGED bi
      [] r.e = "turn" -> Turn(ToSet(bi[r.b].outs) \cup ToSet(bi[r.b].sigs)) /\ UNCHANGED bi
      [] r.e = "ret" -> r.y = r.x + (CASE r.m = "poke" -> 1000 [] r.m = "over1" -> 10000 [] r.m = "over2" -> 20000 [] r.m = "over3" -> 30000 [] r.m = "over4" -> 40000 [] OTHER -> 1) /\ Skip
      [] r.e = "ccaught" -> r.same /\ Skip
      [] r.e \in {"link", "slink"} -> MLinked(r.o, r.i) /\ UNCHANGED bi
      [] r.e \in {"unlink", "sunlink"} -> MUnlinked(r.o, r.i) /\ UNCHANGED bi
      [] r.e \in {"opening", "sopening"} -> MOpening(r.o, r.i) /\ UNCHANGED bi
      [] r.e \in {"closing", "sclosing"} -> MClosing(r.o, r.i) /\ UNCHANGED bi
      [] r.e = "idle" -> Idle(r) /\ Skip
      [] r.e \in {"mk", "res", "wb", "we", "prop", "held", "down", "gone", "freed", "act", "commit", "cthrow", "athrow", "dthrow", "in", "out", "activated", "deactivated"} -> Skip
      [] OTHER -> FALSE

Next == l < Len(Trace) /\ Step(Trace[l + 1]) /\ l' = l + 1
Spec == Init /\ [][Next]_tvars

Accepted ==
    LET d == TLCGet("stats").diameter - 1
    IN IF d = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d + 1, Trace[d + 1].e>>) /\ FALSE
=============================================================================
