----------------------------- MODULE MCBuffers -------------------------------
(* Every history of a small manager: the memory behind two live references is *)
(* never handed out twice, and once everything is dropped all of it is there. *)
EXTENDS Buffers, TLC
CONSTANTS Kinds, NB, BS, Ids
VARIABLE fresh   \* the front has been looked at since the last change

mvars == <<bvars, fresh>>
Init == /\ kind \in Kinds /\ nb = NB /\ bs = BS /\ cur = 0 /\ base = 0 /\ used = 0 /\ moved = FALSE
        /\ held = <<>> /\ leaving = {} /\ acc = [a \in {1, 2} |-> [pend |-> <<>>, toks |-> {}, req |-> 0]] /\ fresh = TRUE
New == CHOOSE i \in Ids : i \notin DOMAIN held
CanNew == Ids \ DOMAIN held # {}

Look == /\ ~fresh /\ fresh' = TRUE
        /\ \/ FrontStay((base + used) % Size, bs - used)
           \/ FrontNext(NextBase, bs)
           \/ FrontEmpty
DoTake == /\ fresh /\ CanNew /\ ~moved /\ used < bs /\ fresh' = FALSE
          /\ \E n \in 1..(bs - used) : Take(New, (base + used) % Size, n)
DoDup == CanNew /\ (\E f \in DOMAIN held : Dup(New, f)) /\ UNCHANGED fresh
DoCut == (\E i \in DOMAIN held : held[i].len > 1 /\ Cut(i, 1)) /\ UNCHANGED fresh
DoDrop == (\E i \in DOMAIN held, later \in BOOLEAN : DropRef(i, later)) /\ fresh' = FALSE
DoQuiet == leaving # {} /\ Quiet /\ fresh' = FALSE
\* two references to memory that follows on become one
DoGather == /\ \E i, j \in DOMAIN held : /\ i # j /\ held[i].sure /\ held[j].sure
                                          /\ (held[i].off + held[i].len) % Size = held[j].off /\ held[i].len + held[j].len <= Size
                                          /\ Gather(i, <<i, j>>, held[i].off, held[i].len + held[j].len, TRUE)
            /\ UNCHANGED fresh
DoAssign == (\E i, j \in DOMAIN held, move \in BOOLEAN : i # j /\ Assign(i, j, move)) /\ fresh' = FALSE
Next == DoGather \/ DoAssign \/ Look \/ DoTake \/ DoDup \/ DoCut \/ DoDrop \/ DoQuiet
Spec == Init /\ [][Next]_mvars /\ WF_mvars(Look) /\ WF_mvars(DoTake) /\ WF_mvars(DoDrop) /\ WF_mvars(DoQuiet)

\* never more bytes out than there are
Conserved == \A t \in 0..(nb - 1) : \A i \in DOMAIN held : held[i].toks = {t} => held[i].len <= bs
Bounded == used <= bs /\ base \in 0..(Size - 1) /\ cur \in 0..(nb - 1)
=============================================================================
