------------------------------ MODULE ActorLock -------------------------------
(* The acquire protocol that gives Actor's exclusive access and guarantees that *)
(* a flagged change is eventually worked on: one worker thread (the thread pool *)
(* lets at most one thread try a task at a time), external callers, and other   *)
(* threads that flag changes (deliver data).                                    *)
EXTENDS Integers, FiniteSets
CONSTANTS Callers, Producers, Rounds
VARIABLES
    flag,     \* a change is flagged
    ext,      \* number of external callers entered
    lock,     \* holder of the call lock: "none", "w" or a caller
    mutex,    \* holder of the acquire mutex
    waiting,  \* the worker announced that it may be waiting
    asleep,   \* threads blocked in the condition variable
    pc, left, \* program counters, remaining rounds
    todo,     \* changes delivered and not yet worked on
    epoch     \* worker is working on a snapshot taken after acquiring
vars == <<flag, ext, lock, mutex, waiting, asleep, pc, left, todo, epoch>>

T == {"w"} \cup Callers \cup Producers
Init ==
    /\ flag = FALSE /\ ext = 0 /\ lock = "none" /\ mutex = "none" /\ waiting = FALSE /\ asleep = {}
    /\ pc = [t \in T |-> "start"] /\ left = [t \in T \ {"w"} |-> Rounds] /\ todo = 0 /\ epoch = 0

Go(t, s) == pc' = [pc EXCEPT ![t] = s]

\* ------------------------------------------------------------ the worker
\* first check, without the mutex
WTry ==
    /\ pc["w"] = "start"
    /\ IF ext # 0 THEN Go("w", "announce") /\ UNCHANGED flag
       ELSE IF flag THEN flag' = FALSE /\ Go("w", "lock") ELSE Go("w", "announce") /\ UNCHANGED flag
    /\ UNCHANGED <<ext, lock, mutex, waiting, asleep, left, todo, epoch>>
WAnnounce == pc["w"] = "announce" /\ waiting' = TRUE /\ Go("w", "mutex") /\ UNCHANGED <<flag, ext, lock, mutex, asleep, left, todo, epoch>>
WMutex == pc["w"] = "mutex" /\ mutex = "none" /\ mutex' = "w" /\ Go("w", "check") /\ UNCHANGED <<flag, ext, lock, waiting, asleep, left, todo, epoch>>
WCheck ==
    /\ pc["w"] = "check"
    /\ IF ext = 0 /\ flag
       THEN flag' = FALSE /\ mutex' = "none" /\ waiting' = FALSE /\ Go("w", "lock") /\ UNCHANGED asleep
       ELSE \/ asleep' = asleep \cup {"w"} /\ mutex' = "none" /\ Go("w", "sleep") /\ UNCHANGED <<flag, waiting>>
            \* the time is over
            \/ mutex' = "none" /\ waiting' = FALSE /\ Go("w", "start") /\ UNCHANGED <<flag, asleep>>
    /\ UNCHANGED <<ext, lock, left, todo, epoch>>
\* woken by a notification or by the timeout
WWake == pc["w"] = "sleep" /\ asleep' = asleep \ {"w"} /\ Go("w", "mutex") /\ UNCHANGED <<flag, ext, lock, mutex, waiting, left, todo, epoch>>
WLock ==
    /\ pc["w"] = "lock"
    /\ IF lock = "none" THEN lock' = "w" /\ Go("w", "snap") /\ UNCHANGED flag
       ELSE flag' = TRUE /\ Go("w", "start") /\ UNCHANGED lock
    /\ UNCHANGED <<ext, mutex, waiting, asleep, left, todo, epoch>>
\* work looks at the ports, then finishes; what it saw is done
WSnap == pc["w"] = "snap" /\ epoch' = todo /\ Go("w", "work") /\ UNCHANGED <<flag, ext, lock, mutex, waiting, asleep, left, todo>>
WWork == pc["w"] = "work" /\ todo' = todo - epoch /\ epoch' = 0 /\ Go("w", "unlock") /\ UNCHANGED <<flag, ext, lock, mutex, waiting, asleep, left>>
WUnlock == pc["w"] = "unlock" /\ lock' = "none" /\ Go("w", "start") /\ asleep' = (IF ext # 0 THEN {} ELSE asleep)
           /\ UNCHANGED <<flag, ext, mutex, waiting, left, todo, epoch>>

\* ------------------------------------------------------------ external callers
CMutex(c) == pc[c] = "start" /\ left[c] > 0 /\ mutex = "none" /\ mutex' = c /\ ext' = ext + 1 /\ Go(c, "try") /\ UNCHANGED <<flag, lock, waiting, asleep, left, todo, epoch>>
CTry(c) ==
    /\ pc[c] = "try"
    /\ IF lock = "none" THEN lock' = c /\ mutex' = "none" /\ Go(c, "in") /\ UNCHANGED asleep
       ELSE asleep' = asleep \cup {c} /\ mutex' = "none" /\ Go(c, "sleep") /\ UNCHANGED lock
    /\ UNCHANGED <<flag, ext, waiting, left, todo, epoch>>
CWake(c) == pc[c] = "sleep" /\ mutex = "none" /\ mutex' = c /\ asleep' = asleep \ {c} /\ Go(c, "try") /\ UNCHANGED <<flag, ext, lock, waiting, left, todo, epoch>>
\* the call may leave something for the worker to do
CIn(c) == pc[c] = "in" /\ todo' = todo + 1 /\ Go(c, "dec") /\ UNCHANGED <<flag, ext, lock, mutex, waiting, asleep, left, epoch>>
CDec(c) == pc[c] = "dec" /\ ext' = ext - 1 /\ Go(c, "unlock") /\ UNCHANGED <<flag, lock, mutex, waiting, asleep, left, todo, epoch>>
CUnlock(c) == pc[c] = "unlock" /\ lock' = "none" /\ Go(c, "flag") /\ UNCHANGED <<flag, ext, mutex, waiting, asleep, left, todo, epoch>>
CFlag(c) == pc[c] = "flag" /\ flag' = TRUE /\ Go(c, "notify") /\ UNCHANGED <<ext, lock, mutex, waiting, asleep, left, todo, epoch>>
CNotify(c) == pc[c] = "notify" /\ asleep' = {} /\ left' = [left EXCEPT ![c] = @ - 1] /\ Go(c, "start") /\ UNCHANGED <<flag, ext, lock, mutex, waiting, todo, epoch>>

\* ------------------------------------------------------------ deliveries
PPut(p) == pc[p] = "start" /\ left[p] > 0 /\ todo' = todo + 1 /\ Go(p, "flag") /\ UNCHANGED <<flag, ext, lock, mutex, waiting, asleep, left, epoch>>
PFlag(p) == pc[p] = "flag" /\ flag' = TRUE /\ Go(p, "look") /\ UNCHANGED <<ext, lock, mutex, waiting, asleep, left, todo, epoch>>
PLook(p) == pc[p] = "look" /\ left' = [left EXCEPT ![p] = @ - 1] /\ Go(p, "start")
            /\ (IF waiting THEN asleep' = (IF asleep = {} THEN {} ELSE asleep \ {CHOOSE t \in asleep : TRUE}) ELSE UNCHANGED asleep)
            /\ UNCHANGED <<flag, ext, lock, mutex, waiting, todo, epoch>>

Worker == WTry \/ WAnnounce \/ WMutex \/ WCheck \/ WWake \/ WLock \/ WSnap \/ WWork \/ WUnlock
Caller(c) == CMutex(c) \/ CTry(c) \/ CWake(c) \/ CIn(c) \/ CDec(c) \/ CUnlock(c) \/ CFlag(c) \/ CNotify(c)
Producer(p) == PPut(p) \/ PFlag(p) \/ PLook(p)
Next == Worker \/ (\E c \in Callers : Caller(c)) \/ (\E p \in Producers : Producer(p))
Spec == Init /\ [][Next]_vars /\ SF_vars(Worker) /\ (\A c \in Callers : SF_vars(Caller(c))) /\ (\A p \in Producers : WF_vars(Producer(p)))
        /\ SF_vars(WMutex) /\ WF_vars(WWake)

InUse(t) == pc[t] \in IF t = "w" THEN {"snap", "work", "unlock"} ELSE {"in", "dec", "unlock"}
Exclusive == Cardinality({t \in {"w"} \cup Callers : InUse(t)}) <= 1
LockHeld == \A t \in {"w"} \cup Callers : InUse(t) <=> lock = t
Counted == ext = Cardinality({c \in Callers : pc[c] \in {"try", "sleep", "in", "dec"}})
\* whatever is delivered is worked on, and every caller gets its turn
Worked == []<>(todo = 0)
Served == \A c \in Callers : <>(left[c] = 0)
=============================================================================
