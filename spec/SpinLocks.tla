------------------------------ MODULE SpinLocks -------------------------------
(* The read/write spin lock's algorithm: one counter, read and then swapped in  *)
(* two steps, with the swap allowed to fail for no reason.                      *)
EXTENDS Integers, FiniteSets
CONSTANTS Thr, Rounds
VARIABLES cnt, pc, seen, todo
vars == <<cnt, pc, seen, todo>>
W == 99
Init == cnt = 0 /\ pc = [t \in Thr |-> "idle"] /\ seen = [t \in Thr |-> 0] /\ todo = [t \in Thr |-> Rounds]
Go(t, p) == pc[t] = "idle" /\ todo[t] > 0 /\ pc' = [pc EXCEPT ![t] = p] /\ todo' = [todo EXCEPT ![t] = @ - 1] /\ UNCHANGED <<cnt, seen>>
Load(t) == pc[t] = "rload" /\ seen' = [seen EXCEPT ![t] = cnt] /\ pc' = [pc EXCEPT ![t] = IF cnt = W THEN "rload" ELSE "rswap"] /\ UNCHANGED <<cnt, todo>>
Swap(t) == /\ pc[t] = "rswap"
           /\ \/ cnt = seen[t] /\ cnt' = cnt + 1 /\ pc' = [pc EXCEPT ![t] = "read"]
              \/ cnt # seen[t] /\ pc' = [pc EXCEPT ![t] = "rload"] /\ UNCHANGED cnt
           /\ UNCHANGED <<seen, todo>>
Spurious(t) == pc[t] = "rswap" /\ pc' = [pc EXCEPT ![t] = "rload"] /\ UNCHANGED <<cnt, seen, todo>>
ROut(t) == pc[t] = "read" /\ cnt' = cnt - 1 /\ pc' = [pc EXCEPT ![t] = "idle"] /\ UNCHANGED <<seen, todo>>
WSwap(t) == pc[t] = "wswap" /\ cnt = 0 /\ cnt' = W /\ pc' = [pc EXCEPT ![t] = "write"] /\ UNCHANGED <<seen, todo>>
WOut(t) == pc[t] = "write" /\ cnt' = 0 /\ pc' = [pc EXCEPT ![t] = "idle"] /\ UNCHANGED <<seen, todo>>
Do(t) == Load(t) \/ Swap(t) \/ ROut(t) \/ WSwap(t) \/ WOut(t)
Next == \E t \in Thr : Go(t, "rload") \/ Go(t, "wswap") \/ Do(t) \/ Spurious(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Thr : SF_vars(Load(t)) /\ SF_vars(Swap(t)) /\ SF_vars(WSwap(t)) /\ WF_vars(ROut(t)) /\ WF_vars(WOut(t))
In(p) == {t \in Thr : pc[t] = p}
Exclusive == Cardinality(In("write")) <= 1 /\ (In("write") # {} => In("read") = {})
Counted == cnt = IF In("write") # {} THEN W ELSE Cardinality(In("read"))
\* strong fairness of the swap: nobody waits for ever (the real lock is only fair as far as the machine is)
Served == \A t \in Thr : (pc[t] \in {"rload", "wswap"}) ~> (pc[t] = "idle")
==============================================================================
