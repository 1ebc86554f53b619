------------------------------ MODULE LocksTrace ------------------------------
(* Spin locks as seen by their users *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, own, wr, rd, writes
tvars == <<l, own, wr, rd, writes>>
Init == l = 0 /\ own = {} /\ wr = {} /\ rd = {} /\ writes = 0
Step(r) ==
    CASE r.e = "run" -> own' = {} /\ wr' = {} /\ rd' = {} /\ writes' = 0
      [] r.e = "in" /\ r.m = "s" -> own = {} /\ own' = {r.t} /\ UNCHANGED <<wr, rd, writes>>
      [] r.e = "in" /\ r.m = "rw" /\ r.w -> wr = {} /\ rd = {} /\ wr' = {r.t} /\ writes' = writes + 1 /\ UNCHANGED <<own, rd>>
      [] r.e = "in" /\ r.m = "rw" /\ ~r.w -> wr = {} /\ rd' = rd \cup {r.t} /\ UNCHANGED <<own, wr, writes>>
      [] r.e = "out" -> /\ r.m = "s" => r.t \in own
                        /\ r.m = "rw" => r.t \in wr \cup rd
                        /\ own' = IF r.m = "s" THEN own \ {r.t} ELSE own
                        /\ wr' = IF r.m = "rw" THEN wr \ {r.t} ELSE wr
                        /\ rd' = IF r.m = "rw" THEN rd \ {r.t} ELSE rd
                        /\ UNCHANGED writes
      [] r.e \in {"tryfail", "bye"} -> UNCHANGED <<own, wr, rd, writes>>
      \* readers share, a reader keeps a writer out and the other way round, and everything is free at the end
      [] r.e = "ends" -> r.both /\ ~r.wr /\ r.free /\ ~r.rd /\ r.sfree /\ ~r.sagain /\ r.writes = writes /\ UNCHANGED <<own, wr, rd, writes>>
      [] OTHER -> FALSE
Next == l < Len(Trace) /\ Step(Trace[l + 1]) /\ l' = l + 1
Spec == Init /\ [][Next]_tvars
Accepted ==
    LET d == TLCGet("stats").diameter - 1
    IN IF d = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d + 1, Trace[d + 1].e>>) /\ FALSE
=============================================================================
