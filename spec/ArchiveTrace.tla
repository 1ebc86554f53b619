----------------------------- MODULE ArchiveTrace -----------------------------
EXTENDS Archive, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, cur   \* cur: the value last written, and its bytes
tvars == <<l, cur>>
Init == l = 0 /\ cur = [v |-> <<>>, s |-> <<>>]
Step(r) ==
    CASE r.e = "run" -> cur' = [v |-> <<>>, s |-> <<>>]
      [] r.e = "save" -> LET w == Whole(r.v) IN r.ok /\ r.s = w /\ cur' = [v |-> r.v, s |-> w]
      [] r.e = "load" -> r.ok /\ r.v = cur.v /\ r.at = Len(cur.s) /\ UNCHANGED cur      \* exactly the value, exactly its bytes
      [] r.e = "cut" -> r.n < Len(cur.s) /\ ~r.ok /\ UNCHANGED cur                      \* a part of it is refused
      [] r.e = "alien" -> ~r.ok /\ UNCHANGED cur                                        \* an unknown type is refused
      [] r.e = "cannot" -> ~r.ok /\ UNCHANGED cur                                       \* a type that cannot be saved
      [] OTHER -> FALSE
Next == l < Len(Trace) /\ Step(Trace[l + 1]) /\ l' = l + 1
Spec == Init /\ [][Next]_tvars
Accepted ==
    LET d == TLCGet("stats").diameter - 1
    IN IF d = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d + 1, Trace[d + 1].e>>) /\ FALSE
=============================================================================
