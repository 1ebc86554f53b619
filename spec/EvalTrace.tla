------------------------------- MODULE EvalTrace ------------------------------
EXTENDS Eval, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES env, l
tvars == <<env, l>>
Init == l = 0 /\ env = <<>>
Put(n, v) == env' = [m \in DOMAIN env \cup {n} |-> IF m = n THEN v ELSE env[m]]
Step(r) ==
    CASE r.e = "run" -> env' = <<>>
      [] r.e = "const" -> LET v == Eval(r.x, env) IN (r.ok <=> v.t # "e") /\ IF r.ok THEN Put(r.name, v) ELSE UNCHANGED env
      [] r.e = "object" -> r.ok /\ Put(r.name, r.v)
      [] r.e = "forget" -> env' = [m \in DOMAIN env \ {r.name} |-> env[m]]
      [] r.e = "broken" -> ~r.ok /\ UNCHANGED env
      [] r.e = "eval" -> Like(r.v, Eval(r.x, env)) /\ UNCHANGED env
      [] r.e = "end" -> UNCHANGED env
      [] OTHER -> FALSE
Next == l < Len(Trace) /\ Step(Trace[l + 1]) /\ l' = l + 1
Spec == Init /\ [][Next]_tvars
Accepted ==
    LET d == TLCGet("stats").diameter - 1
    IN IF d = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d + 1, Trace[d + 1].e>>) /\ FALSE
=============================================================================
