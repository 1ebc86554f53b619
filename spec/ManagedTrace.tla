---------------------------- MODULE ManagedTrace ------------------------------
EXTENDS Managed, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<gvars, l>>
Zero(v) == [w \in {1, 2} |-> v]
Init == l = 0 /\ reg = Zero(<<>>) /\ inst = Zero(<<>>) /\ pend = Zero(<<>>)
Skip == UNCHANGED gvars
Step(r) ==
    CASE r.e = "run" -> reg' = Zero(<<>>) /\ inst' = Zero(<<>>) /\ pend' = Zero(<<>>)
      [] r.e = "commit" -> Commit(r.w, r.cls, [path |-> r.path, m |-> r.m, sm |-> r.sm, ct |-> r.ct, op |-> Range(r.op), sop |-> Range(r.sop),
                                               wild |-> r.wild, swild |-> r.swild, opctor |-> r.opctor, bases |-> r.bases], r.ok)
      [] r.e = "unload" -> Unload(r.w, r.cls)
      [] r.e = "find" -> (r.ok <=> r.cls \in DOMAIN reg[r.w]) /\ Skip
      [] r.e = "lookup" -> (r.ok <=> r.cls \in DOMAIN reg[r.w]) /\ Skip
      [] r.e = "call" -> CallIt(r.w, r.h, r.cls, r.name, r.args)
      [] r.e = "hit" -> Hit(r.w, r.kind, r.f, r.self, r.name, r.args)
      [] r.e = "ret" -> Ret(r.w, r.kind, r.res, r.cls, r.how, r.h)
      [] r.e = "delete" -> r.ok /\ inst[r.w][r.h].cls \in DOMAIN reg[r.w] /\ Forget(r.w, r.h)
      [] r.e = "forget" -> Forget(r.w, r.h)
      [] r.e = "leave" -> Skip
      [] r.e = "end" -> r.live = 0 /\ pend = Zero(<<>>) /\ Skip
      [] OTHER -> FALSE
Next == l < Len(Trace) /\ Step(Trace[l + 1]) /\ l' = l + 1
Spec == Init /\ [][Next]_tvars
Accepted ==
    LET d == TLCGet("stats").diameter - 1
    IN IF d = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d + 1, Trace[d + 1].e>>) /\ FALSE
=============================================================================
