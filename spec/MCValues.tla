------------------------------- MODULE MCValues -------------------------------
(* The order of numbers is a total order that agrees with the texts and the ranges; a conversion
   either keeps the number or is refused; own converters lead where they say. *)
EXTENDS Values
CONSTANT MaxLen
VARIABLES x, y, z
Nums == {n \in [neg : BOOLEAN, half : BOOLEAN, d : UNION {[1..k -> {0, 1, 7, 9}] : k \in 1..MaxLen}] :
            (Len(n.d) > 1 => n.d[1] # 0) /\ (n.d = <<0>> /\ ~n.half => ~n.neg)}
Edge == UNION {{Range[t].lo, Range[t].hi} : t \in DOMAIN Range}
Init == hops = {} /\ x \in Nums \cup Edge /\ y \in Nums \cup Edge /\ z \in {Zero, N(TRUE, <<1>>), N(FALSE, P31)}
Next == \E a, b \in 0..2, on \in BOOLEAN : a # b /\ x = Zero /\ y = Zero /\ z = Zero /\ Hop(a, b, on) /\ UNCHANGED <<x, y, z>>
Spec == Init /\ [][Next]_<<hops, x, y, z>>
Order == /\ Cmp(x, y) = -Cmp(y, x)
         /\ Cmp(x, y) = 0 <=> x = y
         /\ Cmp(x, y) <= 0 /\ Cmp(y, z) <= 0 => Cmp(x, z) <= 0
Conversion == \A t \in DOMAIN Range :
         Fits(x, Zero, t) => LET b == Becomes(x, t) IN
            /\ ~b.half /\ Fits(b, Zero, t) /\ Becomes(b, t) = b
            /\ ~x.half => b = x
            /\ Cmp(x, y) <= 0 /\ Fits(y, Zero, t) => Cmp(b, Becomes(y, t)) <= 0
Texts == ~x.half /\ ~y.half => (Text(x) = Text(y) <=> x = y)
Wayside == \A a, b \in 0..2 : \A w \in Ways(a, b) :
            /\ w[1] = a /\ w[Len(w)] = b
            /\ \A k \in 1..Len(w) - 1 : <<w[k], w[k + 1]>> \in hops
            /\ <<a, b>> \in hops => Len(w) <= 2
Inv == Order /\ Conversion /\ Texts /\ Wayside
===============================================================================
