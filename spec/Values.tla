-------------------------------- MODULE Values --------------------------------
(* Numbers as signed decimal digit sequences (with an optional one half), the ranges of the number
   types, and what conversion, comparison and text of objects mean. *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLE hops   \* converters registered by the driver: set of <<from, to>>
cvars == <<hops>>

Zero == [neg |-> FALSE, half |-> FALSE, d |-> <<0>>]
N(neg, d) == [neg |-> neg, half |-> FALSE, d |-> d]
(* digits: longer is larger, then the first difference decides *)
RECURSIVE Lex(_, _, _)
Lex(a, b, k) == IF k > Len(a) THEN 0 ELSE IF a[k] < b[k] THEN -1 ELSE IF a[k] > b[k] THEN 1 ELSE Lex(a, b, k + 1)
Mag(a, b) == IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1) ELSE Lex(a, b, 1)
B(x) == IF x THEN 1 ELSE 0
Abs(a, b) == LET m == Mag(a.d, b.d) IN IF m # 0 THEN m ELSE B(a.half) - B(b.half)
Cmp(a, b) == IF a.neg # b.neg THEN (IF a.neg THEN -1 ELSE 1) ELSE IF a.neg THEN Abs(b, a) ELSE Abs(a, b)
Trunc(a) == IF a.d = <<0>> THEN Zero ELSE [a EXCEPT !.half = FALSE]

P7 == <<1,2,7>>  P8 == <<2,5,5>>  P15 == <<3,2,7,6,7>>  P16 == <<6,5,5,3,5>>
P31 == <<2,1,4,7,4,8,3,6,4,7>>  P32 == <<4,2,9,4,9,6,7,2,9,5>>
P63 == <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,7>>
P64 == <<1,8,4,4,6,7,4,4,0,7,3,7,0,9,5,5,1,6,1,5>>
Bump(d) == [d EXCEPT ![Len(d)] = @ + 1]   \* the powers of two above end in 7
Signed(p) == [lo |-> N(TRUE, Bump(p)), hi |-> N(FALSE, p)]
Unsigned(p) == [lo |-> Zero, hi |-> N(FALSE, p)]
Range == [char |-> Signed(P7), schar |-> Signed(P7), uchar |-> Unsigned(P8), short |-> Signed(P15), ushort |-> Unsigned(P16),
          int |-> Signed(P31), uint |-> Unsigned(P32), long |-> Signed(P63), ulong |-> Unsigned(P64), llong |-> Signed(P63), ullong |-> Unsigned(P64)]
Integer(t) == t \in DOMAIN Range
Complex(t) == t \in {"cfloat", "cdouble"}

(* may a number (re, im) become a value of type t, and which *)
Fits(re, im, t) ==
    /\ Complex(t) \/ im = Zero
    /\ Integer(t) => Cmp(re, Range[t].lo) >= 0 /\ Cmp(re, Range[t].hi) <= 0
Becomes(re, t) == IF Integer(t) THEN Trunc(re) ELSE re

(* own converters: a direct one is used when there is one, else one step in between *)
Ways(a, b) ==
    IF a = b THEN {<<a>>}
    ELSE IF <<a, b>> \in hops THEN {<<a, b>>}
    ELSE {<<a, m, b>> : m \in {m \in 0..3 : <<a, m>> \in hops /\ <<m, b>> \in hops}}
Hop(a, b, on) == IF on THEN <<a, b>> \notin hops /\ hops' = hops \cup {<<a, b>>} ELSE <<a, b>> \in hops /\ hops' = hops \ {<<a, b>>}

Digits(n) == [k \in DOMAIN n.d |-> 48 + n.d[k]]
Text(n) == IF n.neg THEN <<45>> \o Digits(n) ELSE Digits(n)
RECURSIVE StrCmp(_, _, _)
StrCmp(a, b, k) ==
    IF k > Len(a) THEN (IF k > Len(b) THEN 0 ELSE -1)
    ELSE IF k > Len(b) THEN 1
    ELSE IF a[k] < b[k] THEN -1 ELSE IF a[k] > b[k] THEN 1 ELSE StrCmp(a, b, k + 1)
===============================================================================
