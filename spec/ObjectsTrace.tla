----------------------------- MODULE ObjectsTrace -----------------------------
EXTENDS Objects, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<ovars, l>>
Init == l = 0 /\ slot = <<>> /\ box = <<>> /\ tmp = <<>> /\ val = <<>> /\ busy = {} /\ dead = {}
Skip == UNCHANGED ovars
Step(r) ==
    CASE r.e = "run" -> slot' = <<>> /\ box' = <<>> /\ tmp' = <<>> /\ val' = <<>> /\ busy' = {} /\ dead' = {}
      [] r.e = "make" -> Make(r.t, r.id)
      [] r.e = "boxed" -> Boxed(r.t, r.id, r.in)
      [] r.e = "set" -> Assign(r.t, r.s, IF r.o >= 0 THEN Slot(r.o) ELSE r.id)
      [] r.e = "done" -> (r.o = -1 => r.null) /\ Done(r.t, r.s, r.id)
      [] r.e = "mset" -> Move(r.t, r.s, r.o)
      [] r.e = "mdone" -> Slot(r.o) = r.oid /\ Done(r.t, r.s, r.id)
      [] r.e = "inner" -> Inner(r.t, r.s, r.k + 1)
      [] r.e = "died" -> Die(r.t, r.id)
      [] r.e = "unique" -> Answer(r.s, r.u) /\ Skip
      [] r.e = "ref" -> Ref(r.s, r.ok)
      [] r.e = "extract" -> /\ r.ok <=> (Slot(r.s) # 0 /\ (r.box <=> Slot(r.s) \in DOMAIN box))
                            /\ r.ok => r.id = Slot(r.s) /\ (r.box \/ r.v = val[r.id])
                            /\ Skip
      [] r.e = "same" -> r.id = Slot(r.s) /\ r.oid = Slot(r.o) /\ Skip
      [] r.e = "end" -> Live = {} /\ Skip
      [] OTHER -> FALSE
Next == l < Len(Trace) /\ Step(Trace[l + 1]) /\ l' = l + 1
Spec == Init /\ [][Next]_tvars
Accepted ==
    LET d == TLCGet("stats").diameter - 1
    IN IF d = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d + 1, Trace[d + 1].e>>) /\ FALSE
=============================================================================
