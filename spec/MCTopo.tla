-------------------------------- MODULE MCTopo --------------------------------
(* Exhaustive check of Topo on a small hierarchy: the recursive squash of ports *)
(* and flows, level by level, agrees with the paths of the whole description.   *)
EXTENDS Topo, TLC
CONSTANTS MaxFlows, Deep
VARIABLE n

Leaves == {"A", "B"}
Topos == IF Deep THEN {"T0", "T1", "T2"} ELSE {"T0", "T1"}
Owner == [x \in {"A", "B", "T1", "T2"} |-> CASE x = "A" -> "T0" [] x = "B" -> "T1" [] x = "T1" -> "T0" [] OTHER -> "T1"]
Joint == {"0", "1"}
MemberOf(t) == {x \in (Leaves \cup Topos) \ {"T0"} : Owner[x] = t}
Ends(t, x) == IF x \in Leaves THEN {"0"} ELSE Joint
Flows(t) == {<<s, sp, d, dp>> \in (MemberOf(t) \cup {t}) \X Joint \X (MemberOf(t) \cup {t}) \X Joint :
                sp \in Ends(t, s) /\ dp \in Ends(t, d) /\ (t = "T0" => s # t /\ d # t)}

Init == /\ leaf = Leaves /\ topo = Topos /\ ins = [x \in Leaves |-> {"0"}] /\ outs = [x \in Leaves |-> {"0"}]
        /\ flows = [t \in Topos |-> {}] /\ real = {} /\ n = 0
Total == Cardinality(UNION {{<<t, f>> : f \in flows[t]} : t \in topo})
Ok(t, f) == SrcOk(t, f[1], f[2]) /\ DstOk(t, f[3], f[4]) /\ f \notin flows[t]
Next ==
    \/ \E t \in Topos : \E f \in Flows(t) : Total < MaxFlows /\ Connect(t, f, Ok(t, f)) /\ UNCHANGED n
    \/ \E t \in Topos : \E f \in flows[t] : Disconnect(t, f, TRUE) /\ UNCHANGED n
    \/ \E t \in Topos : \E rec \in BOOLEAN : DisconnectAll(t, rec) /\ UNCHANGED n
    \/ n < 2 /\ Commit(TRUE) /\ n' = n + 1
Spec == Init /\ [][Next]_<<tpvars, n>>

\* ------------------------------------------------ squash, as implemented
RECURSIVE RSrc(_, _), RDst(_, _), Squash(_)
RSrc(o, p) == IF o \in leaf THEN {<<o, "o", p>>}
              ELSE UNION {IF f[1] # o THEN RSrc(f[1], f[2]) ELSE {<<o, "o", p>>} : f \in {g \in flows[o] : g[3] = o /\ g[4] = p}}
RDst(o, p) == IF o \in leaf THEN {<<o, "i", p>>}
              ELSE UNION {IF f[3] # o THEN RDst(f[3], f[4]) ELSE {<<o, "i", p>>} : f \in {g \in flows[o] : g[1] = o /\ g[2] = p}}
Squash(t) ==
    UNION {RSrc(f[1], f[2]) \X RDst(f[3], f[4]) : f \in {g \in flows[t] : g[1] # t /\ g[3] # t}}
    \cup UNION {Squash(o) : o \in {x \in topo \ {t} : \E f \in flows[t] : f[1] = x \/ f[3] = x}}
    \cup {<<<<t, "i", f[2]>>, <<t, "o", f[4]>>>> : f \in {g \in flows[t] : g[1] = t /\ g[3] = t}}
Completed ==
    LET st == Squash("T0")
    IN UNION {{<<p[1], p[3], q[1], q[3]>> : q \in {x \in Reach(st, {}, Succ(st, p)) : x[1] \in leaf}} : p \in Sources(st)}

SquashIsFlat == Completed = Flat
RealIsFlat == [][n' = n + 1 => real' = Flat]_<<tpvars, n>>
OnlyLeaves == \A e \in real : e[1] \in leaf /\ e[3] \in leaf
NothingLeft == flows["T0"] = {} => Flat = {}
UncommittedHasNoEffect == [][n' = n => real' = real]_<<tpvars, n>>
==============================================================================
