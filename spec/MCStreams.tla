------------------------------ MODULE MCStreams ------------------------------
(* Exhaustive check of Streams on a small graph: two sources a and b, input c   *)
(* (two byte elements) fed by both, input d fed by a, connected while running   *)
(* or cut off again. Every byte is unique, so ghosts can tell where it belongs. *)
EXTENDS Streams, TLC, SequencesExt, FiniteSetsExt

CONSTANTS MaxBytes,   \* bytes per source
          MaxEdits    \* live connection changes

VARIABLES sent,   \* sent[o]: everything o ever produced
          got,    \* got[i]: everything i consumed
          edits

gvars == <<sent, got, edits>>
vars == <<svars, gvars>>

Outs == {"a", "b"}
Ins == {"c", "d"}
Tag(o) == IF o = "a" THEN 100 ELSE 200
Source(v) == IF v < 200 THEN "a" ELSE "b"

Init ==
    /\ szI = [i \in Ins |-> IF i = "c" THEN 2 ELSE 1] /\ szO = [o \in Outs |-> 1]
    /\ on = {<<"a", "c">>, <<"b", "c">>} /\ soft = {}
    /\ q = [i \in Ins |-> [o \in Outs |-> <<>>]]
    /\ acc = [i \in Ins |-> <<>>] /\ alab = [i \in Ins |-> {}] /\ due = [i \in Ins |-> {}]
    /\ pend = [x \in Outs \cup Ins |-> <<>>]
    /\ ctot = [i \in Ins |-> 0] /\ ptot = [o \in Outs |-> 0]
    /\ ltot = [i \in Ins |-> 0] /\ pltot = [o \in Outs |-> 0]
    /\ sent = [o \in Outs |-> <<>>] /\ got = [i \in Ins |-> <<>>] /\ edits = 0

\* a work call of source o: n bytes, the first one labelled or not
Produce(o, n, lab) ==
    /\ Len(sent[o]) + n <= MaxBytes
    /\ LET v == [k \in 1..n |-> Tag(o) + Len(sent[o]) + k]
       IN /\ WorkEnd(o, <<>>, <<[o |-> o, v |-> v, labs |-> IF lab THEN {[idx |-> n - 1, id |-> v[n], w |-> 1]} ELSE {}]>>, {})
          /\ sent' = [sent EXCEPT ![o] = @ \o v]
    /\ UNCHANGED <<got, edits>>

\* a work call of the block that owns input i sees `view' and all labels, consumes n elements
Begun(i, n) ==
    LET views == UNION {{SubSeq(p.a, 1, k) : k \in Len(acc[i])..Len(p.a)} : p \in
                  UNION {Pull(acc[i], alab[i], q[i], acc[i] \o w, {}, szI[i]) :
                         w \in {<<>>} \cup {Head(q[i][o]).v : o \in {x \in Outs : q[i][x] # <<>>}}}}
    IN \E view \in views : \E p \in Arrivals(i, view, {}) :
        LET m == Len(view) \div szI[i]
            ls == SetToSortSeq(p.la, LAMBDA x, y : x.pos < y.pos)
            obs == [k \in DOMAIN ls |-> [idx |-> ls[k].pos \div szI[i], id |-> ls[k].id, w |-> Max2(1, ls[k].w \div szI[i])]]
        IN /\ n <= m
           /\ LabelsOk(p.la, obs, m, szI[i])
           /\ WorkBegin(i, <<[p |-> i, v |-> view, n |-> m, tot |-> ctot[i], labs |-> obs]>>, <<>>)

Look(i) == Begun(i, 0) /\ UNCHANGED gvars

Consume(i, n, rm) ==
    /\ n > 0 /\ pend[i] = <<>> /\ due[i] = {} /\ n * szI[i] <= Len(acc[i])
    /\ WorkEnd(i, i :> n, <<>>, IF rm /\ alab[i] # {} THEN {LET x == CHOOSE y \in alab[i] : TRUE IN <<i, x.pos \div szI[i], x.id>>} ELSE {})
    /\ got' = [got EXCEPT ![i] = @ \o SubSeq(acc[i], 1, n * szI[i])]
    /\ UNCHANGED <<sent, edits>>

Prop(i) ==
    /\ due[i] # {}
    /\ LET ls == SetToSortSeq(due[i], LAMBDA x, y : x.pos < y.pos)
       IN Propagate(i, i, [k \in DOMAIN ls |-> [idx |-> ls[k].pos \div szI[i], id |-> ls[k].id, w |-> Max2(1, ls[k].w \div szI[i])]], {i}, {})
    /\ UNCHANGED gvars

Edit ==
    \/ /\ edits < MaxEdits /\ <<"a", "d">> \notin on \cup soft /\ Opening("a", "d") /\ edits' = edits + 1
       /\ UNCHANGED <<sent, got>>
    \/ /\ edits < MaxEdits /\ <<"a", "d">> \in on \ soft /\ Closing("a", "d") /\ edits' = edits + 1
       /\ UNCHANGED <<sent, got>>
    \/ /\ <<"a", "d">> \in soft /\ (Linked("a", "d") \/ Unlinked("a", "d")) /\ UNCHANGED gvars

Next ==
    \/ \E o \in Outs, n \in 1..2, lab \in BOOLEAN : Produce(o, n, lab)
    \/ \E i \in Ins : Look(i) \/ Prop(i) \/ \E n \in 1..2, rm \in BOOLEAN : Consume(i, n, rm)
    \/ Edit

Spec == Init /\ [][Next]_vars
------------------------------------------------------------------------------
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s).v \o Flat(Tail(s))
From(s, o) == SelectSeq(s, LAMBDA v : Source(v) = o)

\* P01: every connected input has, or will get, exactly what its sources produced, each in order
Integrity == \A o \in Outs : From(got["c"] \o acc["c"], o) \o Flat(q["c"][o]) = sent[o]
\* a connection made or cut while running carries an ordered selection, never a repeat or a stranger
Increasing(s) == \A k \in 2..Len(s) : s[k - 1] < s[k]
LiveOrder == Increasing(got["d"] \o acc["d"] \o Flat(q["d"]["a"])) /\ ToSet(got["d"] \o acc["d"]) \subseteq ToSet(sent["a"])
\* P02: a label stays on the byte it was posted on until that byte's element is consumed
LabelsStick ==
    /\ \A i \in Ins : \A x \in alab[i] : x.pos < Len(acc[i]) /\ acc[i][x.pos + 1] = x.id
    /\ \A i \in Ins : \A x \in due[i] : \E k \in DOMAIN got[i] : got[i][k] = x.id
Counts == \A i \in Ins : ctot[i] * szI[i] = Len(got[i])
==============================================================================
