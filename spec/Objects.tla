------------------------------- MODULE Objects --------------------------------
(* Reference-counted values.
   slot   slot -> the value it refers to (0: none)
   box    value -> the values it holds itself (a container), while it lives
   tmp    thread -> the value being built
   val    value -> its contents
   busy   threads inside an operation that may release something
   dead   values destroyed so far *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES slot, box, tmp, val, busy, dead
ovars == <<slot, box, tmp, val, busy, dead>>

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
At(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
Slot(s) == At(slot, s, 0)
Live == DOMAIN val \ dead
RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN x[2] + Sum(S \ {x})
Occ(q, id) == Cardinality({k \in DOMAIN q : q[k] = id})
Count(id) == Cardinality({s \in DOMAIN slot : slot[s] = id}) + Cardinality({t \in DOMAIN tmp : tmp[t] = id})
             + Sum({<<b, Occ(box[b], id)>> : b \in DOMAIN box \ dead})
Garbage == {id \in Live : Count(id) = 0}
Settled == busy = {} => Garbage = {}

Make(t, id) ==
    /\ id \notin DOMAIN val
    /\ tmp' = Put(tmp, t, id) /\ val' = Put(val, id, 7 * id)
    /\ UNCHANGED <<slot, box, busy, dead>>
Boxed(t, id, in) ==
    /\ At(tmp, t, 0) = id
    /\ box' = Put(box, id, [k \in DOMAIN in |-> Slot(in[k])])
    /\ UNCHANGED <<slot, tmp, val, busy, dead>>
(* from here on the thread may be releasing what the slot referred to *)
Assign(t, s, id) ==
    /\ t \notin busy /\ id \notin dead
    /\ slot' = Put(slot, s, id) /\ busy' = busy \cup {t}
    /\ tmp' = Put(tmp, t, 0)
    /\ UNCHANGED <<box, val, dead>>
Move(t, s, o) ==
    /\ t \notin busy
    /\ slot' = IF s = o THEN slot ELSE Put(Put(slot, s, Slot(o)), o, 0)
    /\ busy' = busy \cup {t}
    /\ UNCHANGED <<box, tmp, val, dead>>
Inner(t, s, k) == Slot(s) \in DOMAIN box /\ k \in DOMAIN box[Slot(s)] /\ Assign(t, s, box[Slot(s)][k])
(* a value is destroyed once, when nothing refers to it any more, by a thread that is releasing *)
Die(t, id) ==
    /\ id \in Garbage /\ t \in busy
    /\ dead' = dead \cup {id}
    /\ UNCHANGED <<slot, box, tmp, val, busy>>
Done(t, s, id) ==
    /\ t \in busy /\ Slot(s) = id
    /\ busy' = busy \ {t}
    /\ busy' = {} => Garbage = {}
    /\ UNCHANGED <<slot, box, tmp, val, dead>>

IsUnique(s) == Slot(s) = 0 \/ Count(Slot(s)) = 1
(* an answer given at one moment; others may be about to release or take *)
Answer(s, u) == (u => IsUnique(s)) /\ (~u => ~IsUnique(s) \/ busy # {})
IsVal(s) == Slot(s) # 0 /\ Slot(s) \notin DOMAIN box
Ref(s, ok) ==
    /\ ok => IsUnique(s) /\ IsVal(s)
    /\ ~ok => ~IsVal(s) \/ ~IsUnique(s) \/ busy # {}
    /\ val' = IF ok THEN [val EXCEPT ![Slot(s)] = @ + 1] ELSE val
    /\ UNCHANGED <<slot, box, tmp, busy, dead>>

NoneDangles == (\A s \in DOMAIN slot : slot[s] \notin dead)
               /\ \A b \in DOMAIN box \ dead : \A k \in DOMAIN box[b] : box[b][k] \notin dead
===============================================================================
