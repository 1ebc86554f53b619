------------------------------ MODULE MCMessages ------------------------------
(* Exhaustive check of Messages: sources a and b, receivers c (both), d (a),    *)
(* e (connected to b while running). Messages are numbered in posting order.    *)
EXTENDS Messages, TLC

CONSTANTS MaxPosts, MaxEdits
VARIABLES n,      \* posts so far
          srcOf,  \* who posted message k
          got,    \* what each receiver took
          done,   \* done[k]: messages whose post had returned when k was posted
          should, \* should[k]: receivers surely connected when k was posted
          may,
          edits
gvars == <<n, srcOf, got, done, should, may, edits>>
vars == <<mvars, gvars>>
Outs == {"a", "b"}
Ins == {"c", "d", "e"}

Init ==
    /\ mon = {<<"a", "c">>, <<"b", "c">>, <<"a", "d">>} /\ msoft = {}
    /\ mq = [i \in Ins |-> [o \in Outs |-> <<>>]] /\ now = 0 /\ ret = <<>> /\ tok = {} /\ fresh = {} /\ before = {}
    /\ posted = [o \in Outs |-> 0] /\ taken = [i \in Ins |-> 0]
    /\ n = 0 /\ srcOf = <<>> /\ got = [i \in Ins |-> <<>>] /\ done = <<>> /\ should = <<>> /\ may = <<>> /\ edits = 0

DoPost(o) ==
    /\ n < MaxPosts /\ n' = n + 1
    /\ Post(o, n + 1, "")
    /\ srcOf' = Append(srcOf, o) /\ done' = Append(done, {x \in 1..n : x \in DOMAIN ret \/ x \notin AllIds(mq)})
    /\ should' = Append(should, Receivers(o) \ Unsure(o)) /\ may' = Append(may, Receivers(o) \cup Unsure(o))
    /\ UNCHANGED <<got, edits>>
DoPosted == \E x \in AllIds(mq) \ DOMAIN ret : Posted(x) /\ UNCHANGED gvars
DoTake(i) == \E x \in 1..n : Take(i, x, "") /\ got' = [got EXCEPT ![i] = Append(@, x)] /\ UNCHANGED <<n, srcOf, done, should, may, edits>>
DoTurn(o) == Turn({o}) /\ UNCHANGED gvars
DoWork(o) == o \notin fresh /\ Work({o}) /\ UNCHANGED gvars
Edit ==
    \/ /\ edits < MaxEdits /\ <<"b", "e">> \notin msoft
       /\ (MOpening("b", "e") \/ MClosing("b", "e"))
       /\ edits' = edits + 1 /\ UNCHANGED <<n, srcOf, got, done, should, may>>
    \/ /\ <<"b", "e">> \in msoft /\ (MLinked("b", "e") \/ MUnlinked("b", "e")) /\ UNCHANGED gvars

Next == (\E o \in Outs : DoPost(o) \/ DoTurn(o) \/ DoWork(o)) \/ DoPosted \/ (\E i \in Ins : DoTake(i)) \/ Edit
Spec == Init /\ [][Next]_vars
------------------------------------------------------------------------------
Range(s) == {s[k] : k \in DOMAIN s}
\* P03: at most once, never to a stranger, in order per source and in real-time order across sources
AtMostOnce == \A i \in Ins : Cardinality(Range(got[i])) = Len(got[i])
OnlySubscribed == \A i \in Ins : \A x \in Range(got[i]) : i \in may[x]
Ordered == \A i \in Ins : \A j, k \in DOMAIN got[i] : j < k => got[i][k] \notin
              (IF i \in should[got[i][k]] THEN done[got[i][j]] ELSE {}) 
PerSource == \A i \in Ins : \A j, k \in DOMAIN got[i] : (j < k /\ srcOf[got[i][j]] = srcOf[got[i][k]]) => got[i][j] < got[i][k]
\* nothing lost: what a receiver was owed is taken or still queued
NoLoss == \A i \in Ins : \A x \in 1..n : i \in should[x] => x \in Range(got[i]) \/ x \in Sure(i)
==============================================================================
