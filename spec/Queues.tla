-------------------------------- MODULE Queues --------------------------------
(* Ring deques as bounded sequences; an ordered queue gives its elements back   *)
(* in index order, whatever the order they were pushed in.                      *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES ring, \* [1..3 -> [v: Seq, cap]]
          oq    \* [cap, next: index of the next to become ready, in: pushed out of order, ready: Seq]
qvars == <<ring, oq>>

New(d, c) == ring' = [k \in DOMAIN ring \cup {d} |-> IF k = d THEN [v |-> <<>>, cap |-> c] ELSE ring[k]] /\ UNCHANGED oq
PushB(d, x) == Len(ring[d].v) < ring[d].cap /\ ring' = [ring EXCEPT ![d].v = Append(@, x)] /\ UNCHANGED oq
PushF(d, x) == Len(ring[d].v) < ring[d].cap /\ ring' = [ring EXCEPT ![d].v = <<x>> \o @] /\ UNCHANGED oq
PopF(d) == ring[d].v # <<>> /\ ring' = [ring EXCEPT ![d].v = Tail(@)] /\ UNCHANGED oq
PopB(d) == ring[d].v # <<>> /\ ring' = [ring EXCEPT ![d].v = SubSeq(@, 1, Len(@) - 1)] /\ UNCHANGED oq
\* room for what is there is never taken away
SetCap(d, n) == ring' = [ring EXCEPT ![d].cap = IF n >= Len(ring[d].v) THEN n ELSE @] /\ UNCHANGED oq
Clear(d) == ring' = [ring EXCEPT ![d].v = <<>>] /\ UNCHANGED oq
Copy(d, o) == ring' = [ring EXCEPT ![d] = ring[o]] /\ UNCHANGED oq
\* what was moved from is empty, without room until it is given some
Move(d, o) == ring' = (IF d = o THEN ring ELSE [ring EXCEPT ![d] = ring[o], ![o] = [v |-> <<>>, cap |-> 0]]) /\ UNCHANGED oq
RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN 0 ELSE LET k == CHOOSE k \in S : TRUE IN Len(ring[k].v) + Sum(S \ {k})
Held == Sum(DOMAIN ring)

ONew(c) == oq' = [cap |-> c, next |-> 0, in |-> {}, ready |-> <<>>] /\ UNCHANGED ring
RECURSIVE Settle(_)
Settle(q) == IF q.next \in q.in THEN Settle([q EXCEPT !.in = @ \ {q.next}, !.ready = Append(@, q.next), !.next = (@ + 1) % q.cap]) ELSE q
OPush(i) ==
    /\ i \in 0..(oq.cap - 1) /\ i \notin oq.in /\ \A k \in 1..Len(oq.ready) : oq.ready[k] # i
    /\ oq' = Settle([oq EXCEPT !.in = @ \cup {i}]) /\ UNCHANGED ring
OPop(x) == oq.ready # <<>> /\ Head(oq.ready) = x /\ oq' = [oq EXCEPT !.ready = Tail(@)] /\ UNCHANGED ring
OEmpty == oq.ready = <<>> /\ UNCHANGED qvars
\* ready elements are consecutive and end just before the next one to come
InOrder == \A k \in 1..Len(oq.ready) : oq.ready[k] = (oq.next - 1 - (Len(oq.ready) - k)) % oq.cap
Bounded == \A d \in DOMAIN ring : Len(ring[d].v) <= ring[d].cap
==============================================================================
