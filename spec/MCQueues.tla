------------------------------- MODULE MCQueues -------------------------------
(* The ring deque's representation (masked indexes into a power of two buffer)  *)
(* refines the bounded sequence, and the ordered queue keeps order.             *)
EXTENDS Queues
CONSTANTS MaxCap, Mod
VARIABLES frontI, num, mask, box, cnt
vars == <<qvars, frontI, num, mask, box, cnt>>
Pow(n) == CHOOSE p \in {1, 2, 4, 8} : p >= n /\ \A q \in {1, 2, 4, 8} : q >= n => q >= p
Init == /\ \E c \in 1..MaxCap : ring = [k \in {1} |-> [v |-> <<>>, cap |-> c]] /\ mask = Pow(c) /\ box = [i \in 0..(Pow(c) - 1) |-> 0]
        /\ frontI = 0 /\ num = 0 /\ cnt = 0
        /\ \E c \in 1..MaxCap : oq = [cap |-> c, next |-> 0, in |-> {}, ready |-> <<>>]
At(i) == (frontI + i) % mask
ReCap(n) ==
    /\ SetCap(1, n)
    /\ mask' = IF n >= num THEN Pow(n) ELSE mask
    /\ frontI' = IF n >= num THEN 0 ELSE frontI
    /\ box' = IF n >= num THEN [i \in 0..(Pow(n) - 1) |-> IF i < num THEN box[At(i)] ELSE 0] ELSE box
    /\ UNCHANGED <<num, cnt>>
Next ==
    \/ \E x \in {1, 2} : PushB(1, x) /\ num' = num + 1 /\ box' = [box EXCEPT ![At(num)] = x] /\ UNCHANGED <<frontI, mask, cnt>>
    \/ \E x \in {1, 2} : PushF(1, x) /\ num' = num + 1 /\ frontI' = (frontI - 1) % Mod /\ box' = [box EXCEPT ![(frontI - 1) % mask] = x] /\ UNCHANGED <<mask, cnt>>
    \/ PopF(1) /\ num' = num - 1 /\ frontI' = (frontI + 1) % Mod /\ UNCHANGED <<mask, box, cnt>>
    \/ PopB(1) /\ num' = num - 1 /\ UNCHANGED <<frontI, mask, box, cnt>>
    \/ \E n \in 1..MaxCap : ReCap(n)
    \/ \E i \in 0..(oq.cap - 1) : OPush(i) /\ UNCHANGED <<frontI, num, mask, box, cnt>>
    \/ oq.ready # <<>> /\ OPop(Head(oq.ready)) /\ UNCHANGED <<frontI, num, mask, box, cnt>>
Spec == Init /\ [][Next]_vars
Same == num = Len(ring[1].v) /\ \A i \in 1..num : box[At(i - 1)] = ring[1].v[i]
==============================================================================
