------------------------------- MODULE Streams -------------------------------
(***************************************************************************)
(* Buffered stream ports and the labels that travel with the data.         *)
(*                                                                         *)
(* Output ports produce byte chunks, each with the labels posted in the    *)
(* same work call. A committed connection <<o,i>> carries every chunk of o *)
(* to i once, in order. Chunks of several outputs that feed one input are  *)
(* interleaved chunk-wise. A block's work sees a contiguous prefix of what *)
(* has arrived, consumes whole elements from its front, and the labels on  *)
(* consumed elements are handed to label propagation before any of the     *)
(* data produced by that work call becomes visible downstream.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES
    szI, szO,   \* element size in bytes of every input / output port
    on,         \* connections <<o,i>> in force
    soft,       \* connections being added or removed by a commit in progress
    q,          \* q[i][o]: chunks pushed by o towards i, not yet placed in i's order
    acc,        \* acc[i]: arrived and unconsumed bytes of input i, in order
    alab,       \* alab[i]: labels on them, [pos (bytes), id, w (bytes)]
    due,        \* due[i]: labels consumed by the current work call, not yet propagated
    pend,       \* pend[b]: production of a finished work call waiting for propagation
    ctot, ptot, \* elements consumed / produced so far per input / output
    ltot, pltot \* labels consumed (or removed) / posted so far

svars == <<szI, szO, on, soft, q, acc, alab, due, pend, ctot, ptot, ltot, pltot>>

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

Reset(ins, outs, blocks, si, so) ==
    /\ szI' = si /\ szO' = so
    /\ on' = {} /\ soft' = {}
    /\ q' = [i \in ins |-> [o \in outs |-> <<>>]]
    /\ acc' = [i \in ins |-> <<>>]
    /\ alab' = [i \in ins |-> {}]
    /\ due' = [i \in ins |-> {}]
    /\ pend' = [b \in blocks |-> <<>>]
    /\ ctot' = [i \in ins |-> 0]
    /\ ptot' = [o \in outs |-> 0]
    /\ ltot' = [i \in ins |-> 0]
    /\ pltot' = [o \in outs |-> 0]

------------------------------------------------------------------------------
(* connections *)
Topo == UNCHANGED <<szI, szO, q, acc, alab, due, pend, ctot, ptot, ltot, pltot>>
Opening(o, i) == <<o, i>> \notin on /\ soft' = soft \cup {<<o, i>>} /\ on' = on /\ Topo
Closing(o, i) == <<o, i>> \in on /\ soft' = soft \cup {<<o, i>>} /\ on' = on /\ Topo
Linked(o, i)  == on' = on \cup {<<o, i>>} /\ soft' = soft \ {<<o, i>>} /\ Topo
Unlinked(o, i) == on' = on \ {<<o, i>>} /\ soft' = soft \ {<<o, i>>} /\ Topo

------------------------------------------------------------------------------
(* arrival: the head chunk of one source is appended to the input's order *)
ShiftLabs(labs, by) == {[l EXCEPT !.pos = @ + by] : l \in labs}

Compat(a, v, view) == \A k \in 1..Len(v) : Len(a) + k > Len(view) \/ v[k] = view[Len(a) + k]

\* all ways of placing pending chunks so that `view' is a prefix and the labels `keys' are there
Key(l, sz) == <<l.pos \div sz, l.id>>
RECURSIVE Pull(_, _, _, _, _, _)
Pull(a, la, qi, view, keys, sz) ==
    IF Len(a) >= Len(view) /\ keys \subseteq {Key(l, sz) : l \in la}
    THEN {[a |-> a, la |-> la, qi |-> qi]}
    ELSE UNION {
        LET c == Head(qi[o])
            rest == [qi EXCEPT ![o] = Tail(@)]
        IN (IF Compat(a, c.v, view) THEN Pull(a \o c.v, la \cup ShiftLabs(c.labs, Len(a)), rest, view, keys, sz) ELSE {})
           \cup (IF c.opt THEN Pull(a, la, rest, view, keys, sz) ELSE {})
        : o \in {x \in DOMAIN qi : qi[x] # <<>>} }

Arrivals(i, view, keys) ==
    {p \in Pull(acc[i], alab[i], q[i], view, keys, szI[i]) : SubSeq(p.a, 1, Len(view)) = view}

------------------------------------------------------------------------------
(* what a block may be shown: obs is a sequence of [idx, id, w] in elements *)
LabelsOk(la, obs, n, sz) ==
    LET keyOf(x) == <<x.idx, x.id>>
        match(x) == {l \in la : Key(l, sz) = keyOf(x)}
        keys == {keyOf(obs[k]) : k \in DOMAIN obs}
        idxs == {obs[k].idx : k \in DOMAIN obs}
    IN /\ \A k \in DOMAIN obs :
             /\ \E l \in match(obs[k]) : obs[k].w \in {Max2(1, l.w \div sz), (l.w + sz - 1) \div sz}
             /\ Cardinality({j \in DOMAIN obs : keyOf(obs[j]) = keyOf(obs[k])}) <= Cardinality(match(obs[k]))
       /\ \A k \in 2..Len(obs) : obs[k - 1].idx <= obs[k].idx
       /\ \A l \in la : (l.pos \div sz < n \/ \E x \in idxs : l.pos \div sz < x) => Key(l, sz) \in keys

\* ins: sequence of [p, v, n, tot, labs]; outs: sequence of [p, n, tot]
WorkBegin(b, ins, outs) ==
    /\ pend[b] = <<>>
    /\ \A k \in DOMAIN ins : due[ins[k].p] = {}
    /\ \A k \in DOMAIN outs : outs[k].n > 0 /\ outs[k].tot = ptot[outs[k].p]
    /\ \A k \in DOMAIN ins : /\ ins[k].n = Len(ins[k].v) \div szI[ins[k].p]
                             /\ ins[k].tot = ctot[ins[k].p]
    /\ LET opts(k) == {p \in Arrivals(ins[k].p, ins[k].v, {<<ins[k].labs[j].idx, ins[k].labs[j].id>> : j \in DOMAIN ins[k].labs}) :
                          LabelsOk(p.la, ins[k].labs, ins[k].n, szI[ins[k].p])}
           all == UNION {opts(k) : k \in DOMAIN ins}
       IN \E f \in [DOMAIN ins -> all] :
            /\ \A k \in DOMAIN ins : f[k] \in opts(k)
            /\ LET at(i) == f[CHOOSE k \in DOMAIN ins : ins[k].p = i]
                   mine == {ins[k].p : k \in DOMAIN ins}
               IN /\ acc' = [i \in DOMAIN acc |-> IF i \in mine THEN at(i).a ELSE acc[i]]
                  /\ alab' = [i \in DOMAIN alab |-> IF i \in mine THEN at(i).la ELSE alab[i]]
                  /\ q' = [i \in DOMAIN q |-> IF i \in mine THEN at(i).qi ELSE q[i]]
    /\ UNCHANGED <<szI, szO, on, soft, due, pend, ctot, ptot, ltot, pltot>>

\* deliver finished production ps: sequence of [o, v, labs, to (definite), maybe]
PushAll(ps) ==
    [i \in DOMAIN q |-> [o \in DOMAIN q[i] |->
        LET mine == SelectSeq(ps, LAMBDA p : p.o = o /\ (i \in p.to \/ i \in p.maybe))
        IN q[i][o] \o [k \in DOMAIN mine |-> [v |-> mine[k].v, labs |-> mine[k].labs, opt |-> i \in mine[k].maybe]]]]

DropFirst(s, n) == SubSeq(s, n + 1, Len(s))

\* cons: function from some inputs of b to elements consumed
\* prods: sequence of [o, v, labs (elements)], removed: set of <<i, idx, id>>
WorkEnd(b, cons, prods, removed) ==
    LET rm(i) == {CHOOSE l \in alab[i] : Key(l, szI[i]) = <<x[2], x[3]>> : x \in {y \in removed : y[1] = i}}
        kept(i) == alab[i] \ rm(i)
        bytes(i) == IF i \in DOMAIN cons THEN cons[i] * szI[i] ELSE 0
        gone(i) == {l \in kept(i) : l.pos \div szI[i] < bytes(i) \div szI[i]}
        newDue == [i \in DOMAIN due |-> IF i \in DOMAIN cons THEN gone(i) ELSE due[i]]
        ps == [k \in DOMAIN prods |->
                 [o |-> prods[k].o, v |-> prods[k].v,
                  labs |-> {[pos |-> l.idx * szO[prods[k].o], id |-> l.id, w |-> l.w * szO[prods[k].o]] : l \in prods[k].labs},
                  to |-> {c[2] : c \in {x \in on \ soft : x[1] = prods[k].o}},
                  maybe |-> {c[2] : c \in {x \in soft : x[1] = prods[k].o}}]]
        wait == \E i \in DOMAIN cons : newDue[i] # {}
    IN /\ \A i \in DOMAIN cons : bytes(i) <= Len(acc[i])
       /\ \A x \in removed : \E l \in alab[x[1]] : Key(l, szI[x[1]]) = <<x[2], x[3]>>
       /\ \A k \in DOMAIN prods : Len(prods[k].v) % szO[prods[k].o] = 0
       /\ acc' = [i \in DOMAIN acc |-> DropFirst(acc[i], bytes(i))]
       /\ alab' = [i \in DOMAIN alab |-> ShiftLabs(kept(i) \ gone(i), -bytes(i))]
       /\ due' = newDue
       /\ ctot' = [i \in DOMAIN ctot |-> ctot[i] + bytes(i) \div szI[i]]
       /\ ltot' = [i \in DOMAIN ltot |-> ltot[i] + Cardinality(gone(i)) + Cardinality(rm(i))]
       /\ ptot' = [o \in DOMAIN ptot |-> ptot[o] +
                     (LET mine == SelectSeq(prods, LAMBDA p : p.o = o)
                      IN IF mine = <<>> THEN 0 ELSE Len(mine[1].v) \div szO[o])]
       /\ pltot' = [o \in DOMAIN pltot |-> pltot[o] +
                     (LET mine == SelectSeq(prods, LAMBDA p : p.o = o)
                      IN IF mine = <<>> THEN 0 ELSE Cardinality(mine[1].labs))]
       /\ IF wait THEN pend' = [pend EXCEPT ![b] = ps] /\ q' = q
                  ELSE pend' = pend /\ q' = PushAll(ps)
       /\ UNCHANGED <<szI, szO, on, soft>>

\* labels consumed on input i of block b are handed to propagation; add: set of
\* <<o, label (elements)>> that propagation posts on the block's outputs
Propagate(b, i, obs, mine, add) ==
    /\ due[i] # {}
    /\ Len(obs) = Cardinality(due[i])
    /\ LabelsOk(due[i], obs, 1000000, szI[i])
    /\ LET newDue == [due EXCEPT ![i] = {}]
           ps == [k \in DOMAIN pend[b] |-> [pend[b][k] EXCEPT !.labs = @ \cup
                    {[pos |-> x[2].idx * szO[x[1]], id |-> x[2].id, w |-> x[2].w * szO[x[1]]] :
                       x \in {y \in add : y[1] = pend[b][k].o}}]]
           done == \A j \in mine : newDue[j] = {}
       IN /\ due' = newDue
          /\ pltot' = [o \in DOMAIN pltot |-> pltot[o] + Cardinality({x \in add : x[1] = o})]
          /\ IF done THEN pend' = [pend EXCEPT ![b] = <<>>] /\ q' = PushAll(ps)
                     ELSE pend' = [pend EXCEPT ![b] = ps] /\ q' = q
    /\ UNCHANGED <<szI, szO, on, soft, acc, alab, ctot, ptot, ltot>>

------------------------------------------------------------------------------
(* the whole system at rest *)
RECURSIVE SumLen(_, _)
SumLen(s, k) == IF k > Len(s) THEN 0 ELSE Len(s[k].v) + SumLen(s, k + 1)
RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumOver(f, S \ {x})
Definite(s) == SelectSeq(s, LAMBDA c : ~c.opt)
PendingMin(i) == Len(acc[i]) + SumOver([o \in DOMAIN q[i] |-> SumLen(Definite(q[i][o]), 1)], DOMAIN q[i])
PendingMax(i) == Len(acc[i]) + SumOver([o \in DOMAIN q[i] |-> SumLen(q[i][o], 1)], DOMAIN q[i])
RECURSIVE SumLabs(_, _)
SumLabs(s, k) == IF k > Len(s) THEN 0 ELSE Cardinality(s[k].labs) + SumLabs(s, k + 1)
LabelsLeft(i) == Cardinality(alab[i]) + SumOver([o \in DOMAIN q[i] |-> SumLabs(q[i][o], 1)], DOMAIN q[i])
==============================================================================
