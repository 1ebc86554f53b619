------------------------------ MODULE RemoteTrace -----------------------------
EXTENDS Remote, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<rvars, l>>
Init == l = 0 /\ InitR
Skip == UNCHANGED rvars
Step(r) ==
    CASE r.e = "run" -> req' = <<>> /\ pend' = <<>> /\ slot' = <<>> /\ val' = <<>> /\ home' = <<>> /\ dead' = {} /\ lost' = {} /\ bye' = {} /\ over' = {}
      [] r.e = "open" -> Skip
      [] r.e = "call" ->
            CASE r.op = "make" -> Call(r.t, r.n, r.c, r.op, 0, 0, r.s, r.arg)
              [] r.op = "child" -> Call(r.t, r.n, r.c, r.op, Slot(r.s), 0, r.arg % 100, r.arg \div 100)
              [] r.op = "see" -> Call(r.t, r.n, r.c, r.op, Slot(r.s), Slot(r.arg), 0, 0)
              [] OTHER -> Call(r.t, r.n, r.c, r.op, Slot(r.s), 0, r.arg, 0)
      [] r.e = "made" -> Made(r.n, r.id)
      [] r.e = "did" -> Did(r.n, r.id, r.op, r.arg, r.res)
      [] r.e = "ret" -> r.n \in DOMAIN req /\ Ret(r.t, r.n, r.kind, r.res, r.good, req[r.n].arg)
      [] r.e = "dup" -> Dup(r.s, r.o)
      [] r.e = "drop" -> Drop(r.s)
      [] r.e = "dropped" -> (\A id \in DOMAIN val : id \div 1000 = r.t => (id \in dead \/ Held(id) \/ home[id] \in lost)) /\ Skip
      [] r.e = "died" -> Died(r.id)
      [] r.e = "leave" -> r.t \notin DOMAIN pend /\ Skip
      [] r.e = "lost" -> Lost(r.c)
      [] r.e = "bye" -> Bye(r.c)
      [] r.e = "server" -> Over(r.c, r.threw)
      [] r.e = "gone" -> Skip
      [] r.e = "end" -> pend = <<>> /\ Clean /\ Skip
      [] OTHER -> FALSE
Next == l < Len(Trace) /\ Step(Trace[l + 1]) /\ l' = l + 1
Spec == Init /\ [][Next]_tvars
Accepted ==
    LET d == TLCGet("stats").diameter - 1
    IN IF d = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d + 1, Trace[d + 1].e>>) /\ FALSE
=============================================================================
