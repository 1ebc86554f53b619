------------------------------ MODULE MCRegistry ------------------------------
(* all interleavings of a few operations: operations are atomic, and when nothing is under way
   every handler has been told of everything below it, whichever came first *)
EXTENDS Registry, TLC
CONSTANTS Thr, MaxOps, Small
VARIABLES told, n, left
mvars == <<rvars, told, n, left>>
Names3 == {"a", "b"}
Paths == IF Small THEN {<<>>, <<"a">>, <<"a", "b">>} ELSE {<<>>} \cup {<<x>> : x \in Names3} \cup {<<x, y>> : x \in {"a"}, y \in Names3}
Init == plug = <<>> /\ ord = <<>> /\ th = <<>> /\ told = {} /\ n = 0 /\ left = [t \in Thr |-> MaxOps]
Begin(t) ==
    /\ left[t] > 0 /\ left' = [left EXCEPT ![t] = @ - 1]
    /\ \E p \in Paths :
         \/ \E h \in {0, n + 1} : Call(t, "add", p, n + 1, h) /\ n' = n + 1
         \/ \E op \in IF Small THEN {"remove"} ELSE {"remove", "list"} : Call(t, op, p, 0, 0) /\ UNCHANGED n
    /\ UNCHANGED told
Tell(t) ==
    /\ ~Idle(t) /\ th[t].todo # <<>> /\ Head(th[t].todo).k = "ev"
    /\ LET x == Head(th[t].todo) IN
         /\ Told(t, x.h, x.p, x.o, x.ev)
         /\ told' = IF x.ev = "add" THEN told \cup {<<x.h, x.p, x.o>>} ELSE told
    /\ UNCHANGED <<n, left>>
Next == \E t \in Thr :
    \/ Begin(t) \/ Tell(t)
    \/ (Lin(t) \/ Look(t) \/ Return(t)) /\ UNCHANGED <<told, n, left>>
Spec == Init /\ [][Next]_mvars
Quiet == \A t \in DOMAIN th : Idle(t)
Informed == Quiet => \A p \in DOMAIN plug : plug[p].h # 0 =>
    \A q \in DOMAIN plug : (Len(q) > Len(p) /\ SubSeq(q, 1, Len(p)) = p) => <<plug[p].h, q, plug[q].o>> \in told
(* nothing is told of what was never there, and a listing shows only names with plugins *)
Honest == \A x \in told : x[3] \in 1..n
===============================================================================
