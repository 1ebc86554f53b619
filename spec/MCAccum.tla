------------------------------ MODULE MCAccum --------------------------------
(* Every history of one accumulator over a few bytes: what has been taken is   *)
(* always the beginning of what was put in, whatever the sizes of the pieces.  *)
EXTENDS Buffers, TLC
CONSTANTS MaxBytes, MaxPiece
VARIABLES pushed, popped, seen
mvars == <<bvars, pushed, popped, seen>>
Init == /\ kind = "generic" /\ nb = 1 /\ bs = 1 /\ cur = 0 /\ base = 0 /\ used = 0 /\ moved = FALSE /\ held = <<>> /\ leaving = {}
        /\ acc = [a \in {1} |-> [pend |-> <<>>, toks |-> {}, req |-> 0]] /\ pushed = <<>> /\ popped = <<>> /\ seen = <<>>
Bytes(from, n) == [k \in 1..n |-> from + k]
Push == \E n \in 1..MaxPiece : Len(pushed) + n <= MaxBytes /\ LET v == Bytes(Len(pushed), n)
            IN APush(1, 0, FALSE, v) /\ pushed' = pushed \o v /\ seen' = <<>> /\ UNCHANGED popped
Require == \E n \in 1..MaxBytes : ARequire(1, n) /\ seen' = <<>> /\ UNCHANGED <<pushed, popped>>
Front == \E n \in 0..Len(acc[1].pend) : LET v == SubSeq(acc[1].pend, 1, n)
            IN AFront(1, v, Len(acc[1].pend), acc[1].pend = <<>>) /\ seen' = v /\ UNCHANGED <<pushed, popped>>
Pop == \E n \in 1..Len(seen) : APop(1, n) /\ popped' = popped \o SubSeq(seen, 1, n) /\ seen' = <<>> /\ UNCHANGED pushed
Next == Push \/ Require \/ Front \/ Pop
Spec == Init /\ [][Next]_mvars
Prefix == popped \o acc[1].pend = pushed
Shown == seen = SubSeq(acc[1].pend, 1, Len(seen))
Served == seen # <<>> => Len(seen) >= acc[1].req
=============================================================================
