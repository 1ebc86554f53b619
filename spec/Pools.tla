-------------------------------- MODULE Pools ---------------------------------
(* Thread pools: which thread may give a turn to which block, how many threads  *)
(* there are, and that a block that wants a turn gets it.                       *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES
    size,   \* [pool -> number of threads; 0: one thread per block]
    of,     \* [block -> set of pools it may be run by (two while it is being moved)]
    home,   \* [thread -> the pool it has been seen to belong to]
    busy,   \* [thread -> block it is running]
    mate,   \* [thread of a thread-per-block pool -> its block]
    due     \* [block -> turns it still wants]
pvars == <<size, of, home, busy, mate, due>>

None == "none"
Own(b) == "own-" \o b

PReset == size' = <<>> /\ of' = <<>> /\ home' = <<>> /\ busy' = <<>> /\ mate' = <<>> /\ due' = <<>>

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

NewPool(p, n) == size' = Put(size, p, n) /\ UNCHANGED <<of, home, busy, mate, due>>
\* a new block has a thread of its own
NewBlock(b) ==
    /\ size' = Put(size, Own(b), 0)
    /\ of' = Put(of, b, {Own(b)})
    /\ due' = Put(due, b, 0)
    /\ UNCHANGED <<home, busy, mate>>

Moving(b, p) == of' = [of EXCEPT ![b] = @ \cup {p}] /\ UNCHANGED <<size, home, busy, mate, due>>
\* the move is complete: nothing of the old pool is still inside the block
Moved(b, p) ==
    /\ \A t \in DOMAIN busy : busy[t] = b => home[t] = p
    /\ of' = [of EXCEPT ![b] = {p}]
    /\ UNCHANGED <<size, home, busy, mate, due>>

Begin(b, t) ==
    /\ b \in DOMAIN of
    /\ t \notin DOMAIN busy                       \* one block at a time
    /\ \A u \in DOMAIN busy : busy[u] # b         \* one thread at a time
    /\ \E p \in of[b] \ {None} :
         /\ t \in DOMAIN home => home[t] = p      \* threads do not wander between pools
         /\ (size[p] = 0 /\ t \in DOMAIN mate) => mate[t] = b
         /\ size[p] > 0 => Cardinality({u \in DOMAIN busy : home[u] = p}) < size[p]
         /\ home' = Put(home, t, p)
         /\ mate' = IF size[p] = 0 THEN Put(mate, t, b) ELSE mate
    /\ busy' = Put(busy, t, b)
    /\ due' = [due EXCEPT ![b] = IF @ > 0 THEN @ - 1 ELSE 0]
    /\ UNCHANGED <<size, of>>

End(b, t) == t \in DOMAIN busy /\ busy[t] = b /\ busy' = Drop(busy, t) /\ UNCHANGED <<size, of, home, mate, due>>

Kick(b, n) == due' = [due EXCEPT ![b] = @ + n] /\ UNCHANGED <<size, of, home, busy, mate>>

Freed(b) ==
    /\ \A t \in DOMAIN busy : busy[t] # b
    /\ of' = Drop(of, b) /\ due' = Drop(due, b)
    /\ UNCHANGED <<size, home, busy, mate>>

\* the most threads there may be, when no block is being moved
InPool(p) == {b \in DOMAIN of : p \in of[b]}
Min(a, b) == IF a < b THEN a ELSE b
RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN 0 ELSE LET p == CHOOSE p \in S : TRUE IN
            (IF size[p] = 0 THEN Cardinality(InPool(p)) ELSE Min(size[p], Cardinality(InPool(p)))) + Sum(S \ {p})
MaxThreads == Sum(DOMAIN size)

\* every block that has a thread pool got all the turns it asked for
Settled(live) ==
    /\ \A b \in DOMAIN of : of[b] # {None} => due[b] = 0
    /\ live <= 1 + MaxThreads

\* ------------------------------------------------------------------ invariants
OneBlockEach == \A t, u \in DOMAIN busy : busy[t] = busy[u] => t = u
RunByItsPool == \A t \in DOMAIN busy : home[t] \in of[busy[t]] \ {None}
PoolBound == \A p \in DOMAIN size : size[p] > 0 => Cardinality({t \in DOMAIN busy : home[t] = p}) <= size[p]
==============================================================================
