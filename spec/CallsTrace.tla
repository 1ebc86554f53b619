----------------------------- MODULE CallsTrace -------------------------------
EXTENDS Calls, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<cvars, l>>
Zero == [c \in 0..3 |-> None]
Init == l = 0 /\ cs = Zero /\ pend = <<>>
Skip == UNCHANGED cvars
Step(r) ==
    CASE r.e = "run" -> cs' = Zero /\ pend' = <<>>
      [] r.e = "mk" -> Make(r.c, r.f, r.sig, r.ret)
      [] r.e = "copy" -> r.eq /\ Copy(r.c, r.from)
      [] r.e = "bind" -> Bind(r.c, r.n, r.v)
      [] r.e = "unbind" -> Unbind(r.c, r.n)
      [] r.e = "num" -> (r.ok <=> cs[r.c].f # -1) /\ (r.ok => r.n = NumArgs(r.c)) /\ Skip
      [] r.e = "type" -> /\ IF cs[r.c].f = -1 THEN r.kind = "null"
                            ELSE IF r.n < -1 \/ r.n >= NumArgs(r.c) THEN r.kind = "arg"
                            ELSE /\ r.kind = "ok"
                                 /\ r.t = IF r.n = -1 THEN CASE cs[r.c].ret = 0 -> "i" [] cs[r.c].ret = 1 -> "v" [] cs[r.c].ret = 2 -> "A" [] OTHER -> "sA" ELSE TypeOf(r.c, r.n)
                         /\ Skip
      [] r.e = "ccall" -> CallIt(r.c, r.args)
      [] r.e = "hit" -> Hit(r.kind, r.f, r.self, r.args)
      [] r.e = "cret" -> Ret(r.kind, r.v)
      [] r.e = "end" -> r.live = 0 /\ pend = <<>> /\ Skip
      [] OTHER -> FALSE
Next == l < Len(Trace) /\ Step(Trace[l + 1]) /\ l' = l + 1
Spec == Init /\ [][Next]_tvars
Accepted ==
    LET d == TLCGet("stats").diameter - 1
    IN IF d = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d + 1, Trace[d + 1].e>>) /\ FALSE
=============================================================================
