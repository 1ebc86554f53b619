------------------------------- MODULE MCManaged ------------------------------
(* every registration of three classes, C on top of A and M, with a few functions each, in every
   order of registering and unloading *)
EXTENDS Managed
CONSTANTS Both, MaxFns, MaxOps
VARIABLE n
mvars == <<gvars, n>>
W == 1
Names == {"f"}
Sigs == {<<"i">>, <<"A">>, <<"o">>}
Ctors == {<<>>, IF Both THEN <<<<"s">>, <<"i">>>> ELSE <<<<"s">>>>}
Tuples(S, k) == UNION {[1..m -> S] : m \in 0..k}
Vals == {<<"i", 1>>, <<"s", 2>>, <<"A", 3>>}
Args == {<<>>} \cup {<<v>> : v \in Vals}
Fns(c) == {[name |-> nm, f |-> f, sig |-> s] : nm \in Names, f \in {c}, s \in Sigs}
Numbered(l) == [k \in DOMAIN l |-> [l[k] EXCEPT !.f = k]]
BasesOf(c) == IF c = "C" THEN {<<"A", "M">>, <<"M", "A">>, <<"M">>} ELSE {<<>>}
Init == reg = [w \in {W} |-> <<>>] /\ inst = [w \in {W} |-> <<>>] /\ pend = [w \in {W} |-> <<>>] /\ n = 0
Next == n < MaxOps /\ n' = n + 1 /\ \E c \in {"A", "M", "C"} :
           \/ c \notin DOMAIN reg[W] /\ \E m \in Tuples(Fns(0), MaxFns), ct \in Ctors, op \in {{}, {"f"}}, wild \in BOOLEAN, bs \in BasesOf(c) :
                 Commit(W, c, [path |-> c, m |-> Numbered(m), sm |-> <<>>, ct |-> ct, op |-> op, sop |-> {}, wild |-> wild, swild |-> FALSE, opctor |-> FALSE, bases |-> bs], TRUE)
           \/ Unload(W, c)
Spec == Init /\ [][Next]_mvars
R == reg[W]
Closed(c) == c \in DOMAIN R /\ \A b \in Range(R[c].bases) : b \in DOMAIN R
Takers(c, nm, a) == {d \in {c} \cup Range(R[c].bases) : Pick(W, R[d].m, nm, a) # 0 \/ nm \in R[d].op \/ R[d].wild}
\* a call fails only when nobody takes it; what runs is a function of that name with the values passed, of the
\* class itself where it has one of its own, and the last one registered there
Proper == \A c \in {"A", "M", "C"} : Closed(c) => \A nm \in Names, a \in Args :
    LET go == Method(W, c, nm, a)
    IN /\ (go = Fail) <=> Takers(c, nm, a) = {}
       /\ go # Fail =>
            /\ go.cls \in Takers(c, nm, a)
            /\ Len(go.args) = Len(a) /\ \A k \in 1..Len(a) : go.args[k][2] = a[k][2]
            /\ go.kind = "m" => /\ R[go.cls].m[go.f].name = nm
                                /\ Takes(W, R[go.cls].m[go.f].sig, a)
                                /\ \A k \in (go.f + 1)..Len(R[go.cls].m) : R[go.cls].m[k].name # nm \/ ~Takes(W, R[go.cls].m[k].sig, a)
            /\ c \in Takers(c, nm, a) /\ ~R[c].wild => go.cls = c
            /\ go.kind = "wild" /\ go.cls = c => Takers(c, nm, a) = {c}
            /\ go.kind = "wild" => Pick(W, R[go.cls].m, nm, a) = 0 /\ nm \notin R[go.cls].op
\* only what is registered converts
Converts == \A c \in {"A", "M", "C"} : c \notin DOMAIN R => \A s \in {"i", "s", "A", "M", "C"} : s # c => ~Fits(W, s, c)
===============================================================================
