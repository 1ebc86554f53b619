------------------------------- MODULE MCActor --------------------------------
(* Actor driven by a most general runtime: a few threads, commits at any time.  *)
EXTENDS Actor
CONSTANTS Blocks, Threads, MaxNest, MaxEdits
VARIABLES comm, ext, edits   \* a commit is under way; calls made; edits of the graph
vars == <<avars, comm, ext, edits>>

Edges == {<<"o", "i", a, b>> : a \in Blocks, b \in Blocks}
\* a commit in progress by thread t: it (de)activates what differs, then returns
Init ==
    /\ own = [b \in Blocks |-> <<>>] /\ life = [b \in Blocks |-> "off"] /\ wanted = {} /\ erring = {} /\ failed = {} /\ thrown = {} /\ up = TRUE
    /\ comm = "no" /\ ext = 0 /\ edits = 0
Depth(b) == Len(own[b])

Work(b, t) == Depth(b) < MaxNest /\ (\E k \in ActiveKinds \cup {"call"} : Enter(b, t, k)) /\ UNCHANGED <<comm, ext, edits>>
Ret(b, t) == own[b] # <<>> /\ own[b][Depth(b)][2] \notin {"activate", "deactivate"} /\ Leave(b, t, own[b][Depth(b)][2]) /\ UNCHANGED <<comm, ext, edits>>
Edit == comm = "no" /\ up /\ edits < MaxEdits /\ edits' = edits + 1 /\ (\E e \in Edges : IF e \in wanted THEN Unwant(e) ELSE Want(e)) /\ UNCHANGED <<comm, ext>>
Begin == comm = "no" /\ up /\ comm' = "yes" /\ UNCHANGED <<avars, ext, edits>>
Act(b, t) ==
    /\ comm = "yes" /\ UNCHANGED <<comm, ext, edits>>
    /\ \/ b \in Members \ failed /\ life[b] = "off" /\ own[b] = <<>> /\ Enter(b, t, "activate")
       \/ b \notin Members /\ life[b] = "on" /\ own[b] = <<>> /\ Enter(b, t, "deactivate")
       \/ Inside(b, "activate") /\ life[b] = "off" /\ b \notin failed /\ (Activated(b) \/ ActivateThrows(b))
       \/ Inside(b, "deactivate") /\ life[b] = "on" /\ Deactivated(b)
       \/ Inside(b, "deactivate") /\ life[b] = "off" /\ b \notin erring /\ DeactivateThrows(b)
       \/ ((Inside(b, "activate") /\ (life[b] = "on" \/ b \in failed)) \/ (Inside(b, "deactivate") /\ life[b] = "off")) /\ Leave(b, t, own[b][Depth(b)][2])
End == comm = "yes" /\ (\A b \in Blocks : ~Inside(b, "activate") /\ ~Inside(b, "deactivate")) /\ Commit(erring = {}, erring) /\ comm' = "no" /\ UNCHANGED <<ext, edits>>
Stop == comm = "no" /\ up /\ wanted = {} /\ Down /\ UNCHANGED <<comm, ext, edits>>
Free1(b) == ~up /\ life[b] = "off" /\ Freed(b) /\ UNCHANGED <<comm, ext, edits>>

Next == Edit \/ Begin \/ End \/ Stop \/ (\E b \in Blocks : Free1(b) \/ \E t \in Threads : Work(b, t) \/ Ret(b, t) \/ Act(b, t))
Spec == Init /\ [][Next]_vars
FailedOff == \A b \in failed : life[b] # "on"
==============================================================================
