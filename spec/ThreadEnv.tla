------------------------------ MODULE ThreadEnv -------------------------------
(* The mechanism behind Pools for a pool of N > 0 threads: registration bumps a *)
(* signature, threads keep a private copy of the task list, a task is run by    *)
(* the thread that gets its flag, unregistration waits until no thread knows    *)
(* the task any more.                                                           *)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS Tasks, N, MaxOps
VARIABLES tasks, sig, threads, lsig, loc, cur, at, flag, pc, op, ops, ran
vars == <<tasks, sig, threads, lsig, loc, cur, at, flag, pc, op, ops, ran>>

None == "none"
Idx == 0..(N - 1)
\* a fixed order of the tasks, as the map of handles has
Order == CHOOSE s \in [1..Cardinality(Tasks) -> Tasks] : \A i, j \in DOMAIN s : i # j => s[i] # s[j]
Pos(x) == CHOOSE i \in DOMAIN Order : Order[i] = x
\* the next task after position k in S, wrapping around
NextIn(S, k) == LET later == {x \in S : Pos(x) > k} IN
    IF later # {} THEN CHOOSE x \in later : \A y \in later : Pos(x) <= Pos(y)
    ELSE CHOOSE x \in S : \A y \in S : Pos(x) <= Pos(y)

Init ==
    /\ tasks = {} /\ sig = 0 /\ threads = {} /\ lsig = [t \in Idx |-> 0] /\ loc = [t \in Idx |-> {}]
    /\ cur = [t \in Idx |-> None] /\ at = [t \in Idx |-> 0] /\ flag = {} /\ pc = "idle" /\ op = None /\ ops = 0
    /\ ran = {}

\* ------------------------------------------------------------ the control thread
Register(x) ==
    /\ pc = "idle" /\ ops < MaxOps /\ x \notin tasks
    /\ tasks' = tasks \cup {x} /\ sig' = sig + 1 /\ ops' = ops + 1
    /\ IF Cardinality(threads) < N
       THEN LET t == Cardinality(threads) IN threads' = threads \cup {t} /\ lsig' = [lsig EXCEPT ![t] = 0] /\ loc' = [loc EXCEPT ![t] = {}] /\ at' = [at EXCEPT ![t] = 0]
       ELSE UNCHANGED <<threads, lsig, loc, at>>
    /\ ran' = ran \ {x}
    /\ UNCHANGED <<cur, flag, pc, op>>
Unregister(x) ==
    /\ pc = "idle" /\ ops < MaxOps /\ x \in tasks
    /\ tasks' = tasks \ {x} /\ sig' = sig + 1 /\ ops' = ops + 1
    /\ op' = x /\ pc' = "join"
    /\ UNCHANGED <<threads, lsig, loc, cur, at, flag, ran>>
\* join the last thread when there are more threads than tasks
Join ==
    /\ pc = "join"
    /\ IF Cardinality(threads) > Cardinality(tasks)
       THEN lsig[Cardinality(threads) - 1] = -1 /\ threads' = threads \ {Cardinality(threads) - 1}
       ELSE UNCHANGED threads
    /\ pc' = "unique"
    /\ UNCHANGED <<tasks, sig, lsig, loc, cur, at, flag, op, ops, ran>>
Unique ==
    /\ pc = "unique" /\ \A t \in Idx : op \notin loc[t]
    /\ pc' = "idle" /\ op' = None
    /\ UNCHANGED <<tasks, sig, threads, lsig, loc, cur, at, flag, ops, ran>>

\* ------------------------------------------------------------ the pool's threads
Alive(t) == t \in threads /\ lsig[t] # -1
Refresh(t) ==
    /\ Alive(t) /\ cur[t] = None /\ lsig[t] # sig
    /\ IF t >= Cardinality(tasks)
       THEN lsig' = [lsig EXCEPT ![t] = -1] /\ loc' = [loc EXCEPT ![t] = {}]    \* exits
       ELSE lsig' = [lsig EXCEPT ![t] = sig] /\ loc' = [loc EXCEPT ![t] = tasks]
    /\ at' = [at EXCEPT ![t] = 0]
    /\ UNCHANGED <<tasks, sig, threads, cur, flag, pc, op, ops, ran>>
\* the signature was read as unchanged; try the next task
Try(t) ==
    /\ Alive(t) /\ cur[t] = None /\ lsig[t] = sig /\ loc[t] # {}
    /\ LET x == NextIn(loc[t], at[t]) IN
         /\ at' = [at EXCEPT ![t] = Pos(x)]
         /\ IF x \in flag THEN UNCHANGED <<flag, cur>> ELSE flag' = flag \cup {x} /\ cur' = [cur EXCEPT ![t] = x]
    /\ UNCHANGED <<tasks, sig, threads, lsig, loc, pc, op, ops, ran>>
Done(t) ==
    /\ cur[t] # None
    /\ ran' = ran \cup {cur[t]}
    /\ flag' = flag \ {cur[t]} /\ cur' = [cur EXCEPT ![t] = None]
    /\ UNCHANGED <<tasks, sig, threads, lsig, loc, at, pc, op, ops>>
\* forget, to ask again whether every task is run
Forget == ran # {} /\ tasks \subseteq ran /\ ran' = {} /\ UNCHANGED <<tasks, sig, threads, lsig, loc, cur, at, flag, pc, op, ops>>

Thread(t) == Refresh(t) \/ Try(t) \/ Done(t)
Next == (\E x \in Tasks : Register(x) \/ Unregister(x)) \/ Join \/ Unique \/ (\E t \in Idx : Thread(t)) \/ Forget
Spec == Init /\ [][Next]_vars /\ WF_vars(Join) /\ WF_vars(Unique) /\ (\A t \in Idx : SF_vars(Try(t)) /\ WF_vars(Thread(t)) /\ WF_vars(Refresh(t)))

Exclusive == \A t, u \in Idx : t # u /\ cur[t] # None => cur[t] # cur[u]
\* once unregistration has returned nobody runs the task
Gone == pc = "idle" => \A t \in Idx : cur[t] # None => cur[t] \in tasks
Bound == Cardinality(threads) <= N /\ (pc = "idle" => Cardinality(threads) <= Cardinality(tasks))
Staffed == pc = "idle" /\ tasks # {} => threads # {}
Returns == (pc # "idle") ~> (pc = "idle")
Served == \A x \in Tasks : []<>(x \in tasks => x \in ran)
=============================================================================
