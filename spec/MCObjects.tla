------------------------------- MODULE MCObjects ------------------------------
(* all histories of a few slots in two threads: nothing referred to is ever destroyed, and when
   no thread is releasing nothing unreferenced is left *)
EXTENDS Objects
CONSTANTS Thr, Slots, MaxVals, MaxOps
VARIABLE n
mvars == <<ovars, n>>
Init == slot = [s \in Slots |-> 0] /\ box = <<>> /\ tmp = <<>> /\ val = <<>> /\ busy = {} /\ dead = {} /\ n = 0
Own(t) == {s \in Slots : s \div 10 = t}
Next == \/ n < MaxOps /\ n' = n + 1 /\ \E t \in Thr : t \notin busy /\
             \/ Cardinality(DOMAIN val) < MaxVals /\ At(tmp, t, 0) = 0 /\ Make(t, Cardinality(DOMAIN val) + 1)
             \/ At(tmp, t, 0) # 0 /\ At(tmp, t, 0) \notin DOMAIN box /\ \E s \in Own(t) : Boxed(t, tmp[t], <<s>>)
             \/ \E s \in Own(t) : Assign(t, s, At(tmp, t, 0))
             \/ At(tmp, t, 0) = 0 /\ \E s, o \in Own(t) : Assign(t, s, Slot(o)) \/ Move(t, s, o)
             \/ At(tmp, t, 0) = 0 /\ \E s \in Own(t) : Inner(t, s, 1)
             \/ At(tmp, t, 0) = 0 /\ \E s \in Own(t), u \in Slots : Assign(t, u, Slot(s)) \* handing a copy to the other thread
        \/ \E t \in Thr : UNCHANGED n /\ (\/ \E id \in DOMAIN val : Die(t, id) \/ \E s \in Own(t) : Done(t, s, Slot(s)))
Spec == Init /\ [][Next]_mvars
===============================================================================
