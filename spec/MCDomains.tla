------------------------------- MODULE MCDomains -------------------------------
(* Every graph of a few ports in every combination of domains and modes: what is *)
(* connected directly fits, and the copiers connect exactly what is described.   *)
EXTENDS Domains, TLC
CONSTANTS Outs, Ins, Doms
ModeSets == {m \in [Doms -> {"ABDICATE", "CUSTOM", "ERROR"}] : m[""] # "ERROR"}
Kind(b) == {[isin |-> b, dom |-> d, modes |-> m] : d \in Doms, m \in ModeSets}
Init == /\ \E o \in [Outs -> Kind(FALSE)], i \in [Ins -> Kind(TRUE)] : port = [p \in Outs \cup Ins |-> IF p \in Outs THEN o[p] ELSE i[p]]
        /\ flows \in SUBSET (Outs \X Ins)
        /\ real = {} /\ via = <<>> /\ bridge = <<>> /\ mgr = <<>> /\ kept = {}
Once == /\ real = {} /\ flows # {}
        /\ ~Contradiction(flows)
        /\ Commit([p \in Bridged(flows) |-> "c" \o p])
Next == Once \/ (real # {} /\ UNCHANGED dvars) \/ (flows = {} /\ UNCHANGED dvars)
Spec == Init /\ [][Next]_dvars

E == Edges(real, bridge)
Copier(n) == n \notin Outs \cup Ins
DirectFit == \A e \in E : ~Copier(e[1]) /\ ~Copier(e[2]) =>
                LET a == Mode(e[1], Dom(e[2])) b == Mode(e[2], Dom(e[1])) IN
                /\ a # "ERROR" /\ b # "ERROR" /\ ~(a = "CUSTOM" /\ b = "CUSTOM")
                /\ b = "CUSTOM" => \A x \in E : x[2] = e[2] => x = e
\* the memory of an input has one writer
OneWriter == \A i \in Ins : Cardinality({e \in E : e[2] = i /\ Mode(i, IF Copier(e[1]) THEN "" ELSE Dom(e[1])) = "CUSTOM"}) <= 1
\* described connections and no others, each once
Same == /\ \A e \in E : ~Copier(e[1]) /\ ~Copier(e[2]) => e \in real
        /\ \A o \in Outs, i \in Ins : LET ways == {c \in {x[1] : x \in E} : Copier(c) /\ <<o, c>> \in E /\ <<c, i>> \in E}
                                         n == Cardinality(ways) + (IF <<o, i>> \in E THEN 1 ELSE 0)
                                      IN n = IF <<o, i>> \in real THEN 1 ELSE 0
\* where everything fits there is no copier
NoWaste == (\A f \in real : Fits(f[1], real) /\ Fits(f[2], real)) => bridge = <<>>
\* one manager satisfies everyone, unless the output serves a copier and an input that wants its own memory
OneManager == \A o \in DOMAIN mgr :
                LET t == Theirs(o, real) IN
                /\ (t # {} => \A i \in DirectIns(o, real) : Mode(o, Dom(i)) = "ABDICATE")
                /\ Cardinality({x \in t : Dom(x[1]) # ""}) <= 1
=============================================================================
