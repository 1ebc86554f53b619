------------------------------- MODULE Archive --------------------------------
(* The archive format (version 2). Numbers are little-endian bit sequences, a value is a tree:
     byte   8 bits as they are          two    16 bits as two bytes
     uns    unsigned LEB128             sig    signed LEB128
     raw    bytes as they are           str    its length, then the bytes
     seq    its length, then the items  tup    the items one after the other
     null   an empty Object             obj    an Object: the hash of its type's name, then the value
     sub    an archive of its own, its length first *)
EXTENDS Integers, Sequences, FiniteSets

Pow == [k \in 0..7 |-> IF k = 0 THEN 1 ELSE IF k = 1 THEN 2 ELSE IF k = 2 THEN 4 ELSE IF k = 3 THEN 8 ELSE IF k = 4 THEN 16 ELSE IF k = 5 THEN 32 ELSE IF k = 6 THEN 64 ELSE 128]
Bit(b, k) == IF k \in DOMAIN b THEN b[k] ELSE 0
RECURSIVE Sum(_, _, _, _)
Sum(b, at, n, k) == IF k = n THEN 0 ELSE Pow[k] * Bit(b, at + k) + Sum(b, at, n, k + 1)
Byte(b, at) == Sum(b, at, 8, 0)
RECURSIVE ULeb(_, _)
ULeb(b, at) ==
    LET more == \E k \in DOMAIN b : k >= at + 7 /\ b[k] = 1
        g == Sum(b, at, 7, 0)
    IN IF more THEN <<128 + g>> \o ULeb(b, at + 7) ELSE <<g>>
(* a group is the last one when its sixth bit and everything above agree with the sign *)
Ext(b, k) == IF k \in DOMAIN b THEN b[k] ELSE b[Len(b)]
RECURSIVE SSum(_, _, _)
SSum(b, at, k) == IF k = 7 THEN 0 ELSE Pow[k] * Ext(b, at + k) + SSum(b, at, k + 1)
RECURSIVE SLeb(_, _)
SLeb(b, at) ==
    LET last == \A k \in at + 6..Len(b) : b[k] = b[Len(b)]
        g == SSum(b, at, 0)
    IN IF last THEN <<g>> ELSE <<128 + g>> \o SLeb(b, at + 7)
RECURSIVE Nat7(_)
Nat7(n) == IF n < 128 THEN <<n>> ELSE <<128 + (n % 128)>> \o Nat7(n \div 128)

RECURSIVE Enc(_)
RECURSIVE All(_, _)
All(q, k) == IF k > Len(q) THEN <<>> ELSE Enc(q[k]) \o All(q, k + 1)
Enc(v) ==
    CASE v.k = "byte" -> <<Byte(v.b, 1)>>
      [] v.k = "two" -> <<Byte(v.b, 1), Byte(v.b, 9)>>
      [] v.k = "uns" -> ULeb(v.b, 1)
      [] v.k = "sig" -> SLeb(v.b, 1)
      [] v.k = "raw" -> v.s
      [] v.k = "str" -> Nat7(Len(v.s)) \o v.s
      [] v.k = "seq" -> Nat7(Len(v.v)) \o All(v.v, 1)
      [] v.k = "tup" -> All(v.v, 1)
      [] v.k = "null" -> <<1>>
      [] v.k = "sub" -> LET w == <<2>> \o Enc(v.v) IN Nat7(Len(w)) \o w
      [] v.k = "obj" -> <<0>> \o ULeb(v.h, 1) \o Enc(v.v)
Whole(v) == <<2>> \o Enc(v)

(* reading: the value and where it ends; 0 for an end past the data *)
RECURSIVE Leb(_, _)
Leb(s, at) == IF at > Len(s) THEN [n |-> 0, g |-> <<>>] ELSE IF s[at] < 128 THEN [n |-> at + 1, g |-> <<s[at]>>]
              ELSE LET r == Leb(s, at + 1) IN [n |-> r.n, g |-> <<s[at] - 128>> \o r.g]
GBit(g, k, sgn) == LET q == k \div 7 IN
    IF q < Len(g) THEN (g[q + 1] \div Pow[k % 7]) % 2 ELSE IF sgn THEN (g[Len(g)] \div 64) % 2 ELSE 0
Dec(s, w, sgn) == LET r == Leb(s, 1) IN [n |-> r.n, b |-> IF r.n = 0 THEN <<>> ELSE [k \in 1..w |-> GBit(r.g, k - 1, sgn)]]
===============================================================================
