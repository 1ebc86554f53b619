-------------------------------- MODULE Actor --------------------------------
(* The execution context of blocks: exclusive access (a block's own code never  *)
(* runs in two threads at once), life cycle (activate, deactivate and what may  *)
(* run in between) and exceptions of user code.                                 *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES
    own,      \* [block -> Seq(<<thread, kind>>)]  the nesting of user code entered and not left
    life,     \* [block -> {"off", "on", "gone"}]
    wanted,   \* set of <<edge, block, block>> the topology is asked to have
    erring,   \* blocks whose activate/deactivate threw during the commit under way
    failed,   \* blocks of the graph whose activation threw: they stay off
    thrown,   \* external calls whose code has thrown and whose caller has not seen it yet
    up        \* the topology exists
avars == <<own, life, wanted, erring, failed, thrown, up>>

ActiveKinds == {"prepare", "work", "propagate", "slot"}
AnyKinds == {"call", "bufmgr", "make"}

AReset(blocks) ==
    /\ own' = [b \in blocks |-> <<>>]
    /\ life' = [b \in blocks |-> "off"]
    /\ wanted' = {} /\ erring' = {} /\ failed' = {} /\ thrown' = {} /\ up' = TRUE

Free(b, t) == \A k \in DOMAIN own[b] : own[b][k][1] = t

Enter(b, t, k) ==
    /\ Free(b, t)
    /\ CASE k \in ActiveKinds -> life[b] = "on" /\ up
         [] k = "activate" -> life[b] = "off" /\ up
         [] k = "deactivate" -> life[b] = "on"
         [] k \in AnyKinds -> life[b] # "gone"
         [] OTHER -> FALSE
    \* the runtime does not call a block back from inside its own code, except
    \* for calls the block makes on itself
    /\ k \in {"activate", "deactivate", "work", "prepare"} => own[b] = <<>>
    /\ own' = [own EXCEPT ![b] = Append(@, <<t, k>>)]
    /\ UNCHANGED <<life, wanted, erring, failed, thrown, up>>

Leave(b, t, k) ==
    /\ own[b] # <<>>
    /\ own[b][Len(own[b])] = <<t, k>>
    /\ own' = [own EXCEPT ![b] = SubSeq(@, 1, Len(@) - 1)]
    /\ UNCHANGED <<life, wanted, erring, failed, thrown, up>>

Inside(b, k) == own[b] # <<>> /\ own[b][Len(own[b])][2] = k

Activated(b) ==
    /\ Inside(b, "activate")
    /\ life' = [life EXCEPT ![b] = "on"]
    /\ failed' = failed \ {b}
    /\ UNCHANGED <<own, wanted, erring, thrown, up>>

ActivateThrows(b) ==
    /\ Inside(b, "activate")
    /\ failed' = failed \cup {b} /\ erring' = erring \cup {b}
    /\ UNCHANGED <<own, life, wanted, thrown, up>>

Deactivated(b) ==
    /\ Inside(b, "deactivate")
    /\ life' = [life EXCEPT ![b] = "off"]
    /\ UNCHANGED <<own, wanted, erring, failed, thrown, up>>

DeactivateThrows(b) ==
    /\ Inside(b, "deactivate") /\ life[b] = "off"
    /\ erring' = erring \cup {b}
    /\ UNCHANGED <<own, life, wanted, failed, thrown, up>>

Want(e) == wanted' = wanted \cup {e} /\ UNCHANGED <<own, life, erring, failed, thrown, up>>
Unwant(e) == wanted' = wanted \ {e} /\ UNCHANGED <<own, life, erring, failed, thrown, up>>

Members == {e[3] : e \in wanted} \cup {e[4] : e \in wanted}

\* commit() returned (ok) or threw, naming the blocks at fault
Commit(ok, named) ==
    /\ ok <=> (erring = {})
    /\ named = erring
    /\ \A b \in DOMAIN life : life[b] # "gone" =>
          (life[b] = "on" <=> b \in Members \ failed)
    /\ erring' = {}
    /\ failed' = failed \cap Members
    /\ UNCHANGED <<own, life, wanted, thrown, up>>

\* the topology's destructor returned
Down ==
    /\ up' = FALSE
    /\ \A b \in DOMAIN life : life[b] = "off" /\ (\A k \in DOMAIN own[b] : own[b][k][2] \in AnyKinds)
    /\ thrown = {}
    /\ UNCHANGED <<own, life, wanted, erring, failed, thrown>>

Freed(b) ==
    /\ life[b] = "off" /\ own[b] = <<>>
    /\ life' = [life EXCEPT ![b] = "gone"]
    /\ UNCHANGED <<own, wanted, erring, failed, thrown, up>>

CallThrows(x) == thrown' = thrown \cup {x} /\ UNCHANGED <<own, life, wanted, erring, failed, up>>
CallCaught(x, same) == x \in thrown /\ same /\ thrown' = thrown \ {x} /\ UNCHANGED <<own, life, wanted, erring, failed, up>>
CallReturned(x) == x \notin thrown /\ UNCHANGED avars

\* ------------------------------------------------------------------ invariants
Exclusive == \A b \in DOMAIN own : Cardinality({own[b][k][1] : k \in DOMAIN own[b]}) <= 1
RunsOnlyActive == \A b \in DOMAIN own : \A k \in DOMAIN own[b] : own[b][k][2] \in ActiveKinds => life[b] = "on"
DownIsOff == ~up => \A b \in DOMAIN life : life[b] # "on" /\ (\A k \in DOMAIN own[b] : own[b][k][2] \in AnyKinds)
==============================================================================
