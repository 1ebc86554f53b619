--------------------------------- MODULE Topo ---------------------------------
(* Topologies as descriptions of a graph. Leaves are blocks, topologies hold    *)
(* flows between their members and themselves; a topology's own port joins what *)
(* is connected to it outside with what is connected to it inside. Commit makes *)
(* the real graph: one edge per pair of block ports joined by a path of flows.  *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES
    leaf,    \* names of blocks
    topo,    \* names of topologies
    ins, outs, \* [leaf -> set of port names it was made with]
    flows,   \* [topology -> set of <<src, src port, dst, dst port>>]
    real     \* the committed edges between leaves
tpvars == <<leaf, topo, ins, outs, flows, real>>

TReset(lf, tp, i, o) ==
    /\ leaf' = lf /\ topo' = tp /\ ins' = i /\ outs' = o
    /\ flows' = [t \in tp |-> {}] /\ real' = {}

\* ---------------------------------------------------------------- ports
Index == [p \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"} |->
            CASE p = "0" -> 0 [] p = "1" -> 1 [] p = "2" -> 2 [] p = "3" -> 3 [] p = "4" -> 4
              [] p = "5" -> 5 [] p = "6" -> 6 [] p = "7" -> 7 [] p = "8" -> 8 [] p = "9" -> 9]
\* an indexed port is added on demand when the block has one with a lower index
HasPort(base, p) == p \in base \/ (p \in DOMAIN Index /\ \E q \in base \cap DOMAIN Index : Index[q] < Index[p])

InNames(fl, t) == {f[2] : f \in {g \in fl[t] : g[1] = t}}
OutNames(fl, t) == {f[4] : f \in {g \in fl[t] : g[3] = t}}
SrcOk(t, s, p) == IF s = t THEN TRUE ELSE IF s \in topo THEN p \in OutNames(flows, s) ELSE HasPort(outs[s], p)
DstOk(t, d, p) == IF d = t THEN TRUE ELSE IF d \in topo THEN p \in InNames(flows, d) ELSE HasPort(ins[d], p)

Connect(t, f, ok) ==
    /\ ok <=> SrcOk(t, f[1], f[2]) /\ DstOk(t, f[3], f[4]) /\ f \notin flows[t]
    /\ flows' = IF ok THEN [flows EXCEPT ![t] = @ \cup {f}] ELSE flows
    /\ UNCHANGED <<leaf, topo, ins, outs, real>>
Disconnect(t, f, ok) ==
    /\ ok <=> f \in flows[t]
    /\ flows' = [flows EXCEPT ![t] = @ \ {f}]
    /\ UNCHANGED <<leaf, topo, ins, outs, real>>

\* topologies found from t through flows
RECURSIVE Within(_, _)
Within(seen, new) ==
    IF new = {} THEN seen
    ELSE LET s2 == seen \cup new
             n2 == {o \in topo \ s2 : \E t \in new : \E f \in flows[t] : f[1] = o \/ f[3] = o}
         IN Within(s2, n2)
DisconnectAll(t, rec) ==
    /\ LET gone == IF rec THEN Within({}, {t}) ELSE {t}
       IN flows' = [x \in topo |-> IF x \in gone THEN {} ELSE flows[x]]
    /\ UNCHANGED <<leaf, topo, ins, outs, real>>

\* ---------------------------------------------------------------- flattening
\* places: <<object, "i" or "o", port>>
From(t, f) == IF f[1] = t THEN <<t, "i", f[2]>> ELSE <<f[1], "o", f[2]>>
To(t, f) == IF f[3] = t THEN <<t, "o", f[4]>> ELSE <<f[3], "i", f[4]>>
Steps(tops) == UNION {{<<From(t, f), To(t, f)>> : f \in flows[t]} : t \in tops}
\* places reached from p in exactly n steps, with the number of ways
Succ(st, p) == {e[2] : e \in {x \in st : x[1] = p}}
RECURSIVE Reach(_, _, _)
Reach(st, seen, new) ==
    IF new = {} THEN seen
    ELSE Reach(st, seen \cup new, (UNION {Succ(st, p) : p \in new}) \ (seen \cup new))
Sources(st) == {e[1] : e \in {x \in st : x[1][1] \in leaf}}
Flat ==
    LET st == Steps(Within({}, {"T0"}))
    IN UNION {{<<p[1], p[3], q[1], q[3]>> : q \in {x \in Reach(st, {}, Succ(st, p)) : x[1] \in leaf}} : p \in Sources(st)}
\* two different ways to say the same edge
Ambiguous ==
    LET st == Steps(Within({}, {"T0"}))
    IN \E p \in Sources(st) :
          LET rs == Reach(st, {}, Succ(st, p))
              vis == rs \cup {p}
          IN \E q \in rs : Cardinality({e \in st : e[2] = q /\ e[1] \in vis}) > 1

Commit(ok) ==
    /\ ok \/ Ambiguous
    /\ real' = IF ok THEN Flat ELSE real
    /\ UNCHANGED <<leaf, topo, ins, outs, flows>>
Active == {e[1] : e \in real} \cup {e[3] : e \in real}
Declared == {o \in leaf : \E t \in Within({}, {"T0"}) : \E f \in flows[t] : f[1] = o \/ f[3] = o}
\* no flow goes straight through a topology
NoPass == \A t \in topo : \A f \in flows[t] : ~(f[1] = t /\ f[3] = t)
==============================================================================
