------------------------------- MODULE MCArchive ------------------------------
(* Every number of W bits reads back as itself, whatever follows it, and no beginning of it reads as a number. *)
EXTENDS Archive
CONSTANT W
VARIABLES x, tail
Init == x \in [1..W -> {0, 1}] /\ tail \in {<<>>, <<0>>, <<255>>}
Next == FALSE /\ UNCHANGED <<x, tail>>
Spec == Init /\ [][Next]_<<x, tail>>
Good(e, sgn) ==
    /\ LET d == Dec(e \o tail, W, sgn) IN d.n = Len(e) + 1 /\ d.b = x
    /\ \A k \in 0..Len(e) - 1 : Dec(SubSeq(e, 1, k), W, sgn).n = 0
    /\ \A k \in DOMAIN e : e[k] \in 0..255
Inv == Good(ULeb(x, 1), FALSE) /\ Good(SLeb(x, 1), TRUE)
===============================================================================
