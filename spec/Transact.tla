------------------------------- MODULE Transact -------------------------------
(* How the client threads of one remote environment share its connection: one of them reads, the
   others wait for it to put their reply into the cache. Fixed: the reader that sees the connection
   fail announces it under the lock; Fixed = FALSE is the protocol before the repair (for the record:
   TLC then finds a thread that sleeps for ever). *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Thr, Rounds, Fixed
VARIABLES pc, n, lock, blocking, active, cache, toServer, toClient, broken, sleeping, got
vars == <<pc, n, lock, blocking, active, cache, toServer, toClient, broken, sleeping, got>>
None == "none"
Init == /\ pc = [t \in Thr |-> "start"] /\ n = [t \in Thr |-> 0] /\ lock = None /\ blocking = FALSE /\ active = TRUE
        /\ cache = {} /\ toServer = <<>> /\ toClient = <<>> /\ broken = FALSE /\ sleeping = {} /\ got = [t \in Thr |-> 0]
Go(t, p) == pc' = [pc EXCEPT ![t] = p]
Start(t) == /\ pc[t] = "start" /\ n[t] < Rounds
            /\ IF active THEN Go(t, "send") ELSE Go(t, "failed")
            /\ n' = [n EXCEPT ![t] = @ + 1]
            /\ UNCHANGED <<lock, blocking, active, cache, toServer, toClient, broken, sleeping, got>>
Send(t) == /\ pc[t] = "send" /\ Go(t, "acquire")
           /\ toServer' = IF broken THEN toServer ELSE Append(toServer, <<t, n[t]>>)
           /\ UNCHANGED <<n, lock, blocking, active, cache, toClient, broken, sleeping, got>>
Acquire(t) == /\ pc[t] = "acquire" /\ lock = None /\ lock' = t /\ Go(t, "look")
              /\ UNCHANGED <<n, blocking, active, cache, toServer, toClient, broken, sleeping, got>>
Look(t) == /\ pc[t] = "look"
           /\ IF \E r \in cache : r[1] = t
              THEN /\ \E r \in cache : r[1] = t /\ cache' = cache \ {r} /\ got' = [got EXCEPT ![t] = r[2]]
                   /\ lock' = None /\ sleeping' = {} /\ Go(t, "done") /\ UNCHANGED blocking
              ELSE IF Fixed /\ ~active THEN lock' = None /\ Go(t, "failed") /\ UNCHANGED <<cache, got, blocking, sleeping>>
              ELSE IF blocking THEN Go(t, "towait") /\ UNCHANGED <<cache, got, blocking, lock, sleeping>>
              ELSE blocking' = TRUE /\ lock' = None /\ Go(t, "read") /\ UNCHANGED <<cache, got, sleeping>>
           /\ UNCHANGED <<n, active, toServer, toClient, broken>>
Wait(t) == /\ pc[t] = "towait" /\ sleeping' = sleeping \cup {t} /\ lock' = None /\ Go(t, "asleep")
           /\ UNCHANGED <<n, blocking, active, cache, toServer, toClient, broken, got>>
Wake(t) == /\ pc[t] = "asleep" /\ t \notin sleeping /\ Go(t, "acquire")
           /\ UNCHANGED <<n, lock, blocking, active, cache, toServer, toClient, broken, sleeping, got>>
Read(t) == /\ pc[t] = "read" /\ toClient # <<>> /\ Go(t, "relock")
           /\ got' = [got EXCEPT ![t] = Head(toClient)] /\ toClient' = Tail(toClient)
           /\ UNCHANGED <<n, lock, blocking, active, cache, toServer, broken, sleeping>>
Relock(t) == /\ pc[t] = "relock" /\ lock = None
             /\ blocking' = FALSE
             /\ IF got[t][1] = t THEN got' = [got EXCEPT ![t] = got[t][2]] /\ Go(t, "done") /\ UNCHANGED cache
                ELSE cache' = cache \cup {got[t]} /\ got' = [got EXCEPT ![t] = 0] /\ Go(t, "acquire")
             /\ sleeping' = {}
             /\ UNCHANGED <<n, lock, active, toServer, toClient, broken>>
ReadFails(t) == /\ pc[t] = "read" /\ toClient = <<>> /\ broken
                /\ IF Fixed THEN Go(t, "tell") /\ UNCHANGED <<blocking, sleeping, active>>
                   ELSE blocking' = FALSE /\ sleeping' = {} /\ active' = FALSE /\ Go(t, "failed")
                /\ UNCHANGED <<n, lock, cache, toServer, toClient, broken, got>>
Tell(t) == /\ pc[t] = "tell" /\ lock = None /\ blocking' = FALSE /\ active' = FALSE /\ sleeping' = {} /\ Go(t, "failed")
           /\ UNCHANGED <<n, lock, cache, toServer, toClient, broken, got>>
Finish(t) == /\ pc[t] \in {"done", "failed"} /\ n[t] < Rounds /\ Go(t, "start") /\ got' = [got EXCEPT ![t] = 0]
             /\ UNCHANGED <<n, lock, blocking, active, cache, toServer, toClient, broken, sleeping>>
Serve == /\ toServer # <<>> /\ ~broken /\ toClient' = Append(toClient, Head(toServer)) /\ toServer' = Tail(toServer)
         /\ UNCHANGED <<pc, n, lock, blocking, active, cache, broken, sleeping, got>>
Break == ~broken /\ broken' = TRUE /\ toServer' = <<>> /\ UNCHANGED <<pc, n, lock, blocking, active, cache, toClient, sleeping, got>>
Spurious(t) == t \in sleeping /\ sleeping' = sleeping \ {t} /\ UNCHANGED <<pc, n, lock, blocking, active, cache, toServer, toClient, broken, got>>
Step(t) == Start(t) \/ Send(t) \/ Acquire(t) \/ Look(t) \/ Wait(t) \/ Wake(t) \/ Read(t) \/ Relock(t) \/ ReadFails(t) \/ Tell(t) \/ Finish(t)
Next == Serve \/ Break \/ \E t \in Thr : Step(t) \/ Spurious(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Serve) /\ \A t \in Thr : WF_vars(Step(t)) /\ SF_vars(Acquire(t)) /\ SF_vars(Relock(t)) /\ SF_vars(Tell(t))
(* one reader; everybody gets the answer to their own last question; failure only after a break *)
OneReader == Cardinality({t \in Thr : pc[t] \in {"read", "relock", "tell"}}) <= 1
Own == \A t \in Thr : pc[t] = "done" => got[t] = n[t]
Blame == \A t \in Thr : pc[t] = "failed" => broken
Ends == \A t \in Thr : <>(n[t] = Rounds /\ pc[t] \in {"done", "failed"})
===============================================================================
