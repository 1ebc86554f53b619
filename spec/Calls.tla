-------------------------------- MODULE Calls ---------------------------------
(* Functions called with arguments whose types are known only at run time.
   A value is <<type, number>>: "i" int, "d" double, "s" string, "A" an object of
   class A, "sA" / "pA" shared and plain pointers to one, "o" anything.
   Converting a value changes its type and never its number. *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES
    cs,     \* callable -> [f, sig, ret, bound: position -> value]; f = -1: null
    pend    \* the call being made: [c, args, hit: the function was entered]
cvars == <<cs, pend>>
None == [f |-> -1, sig |-> <<>>, ret |-> 0, bound |-> <<>>]

\* which values fit a parameter (no classes registered for conversion)
Fits(s, t) == t = "o" \/ s = t \/ (s \in {"i", "d"} /\ t \in {"i", "d"})
\* a parameter that takes anything sees the value as it is
As(v, t) == IF t = "o" THEN v ELSE <<t, v[2]>>

Arity(c) == Len(cs[c].sig)
Bound(c) == DOMAIN cs[c].bound \cap 0..(Arity(c) - 1)
\* positions that take the arguments of a call, in order
RECURSIVE OpenFrom(_, _)
OpenFrom(c, p) == IF p >= Arity(c) THEN <<>> ELSE (IF p \in Bound(c) THEN <<>> ELSE <<p>>) \o OpenFrom(c, p + 1)
Open(c) == OpenFrom(c, 0)
NumArgs(c) == Len(Open(c))
TypeOf(c, n) == cs[c].sig[Open(c)[n + 1] + 1]

\* what the function gets to see: at each position the bound value, or the next argument
Given(c, args) == [p \in 1..Arity(c) |->
                     IF (p - 1) \in Bound(c) THEN cs[c].bound[p - 1]
                     ELSE args[CHOOSE k \in 1..NumArgs(c) : Open(c)[k] = p - 1]]
Accepted_(c, args) == /\ Len(args) >= NumArgs(c)
                      /\ \A p \in 1..Arity(c) : Fits(Given(c, args)[p][1], cs[c].sig[p])
Seen(c, args) == [p \in 1..Arity(c) |-> As(Given(c, args)[p], cs[c].sig[p])]

RECURSIVE Weigh(_, _)
Weigh(v, k) == IF k > Len(v) THEN 0 ELSE k * v[k][2] + Weigh(v, k + 1)
RECURSIVE Total(_, _)
Total(v, k) == IF k > Len(v) THEN 0 ELSE v[k][2] + Total(v, k + 1)

Make(c, f, sig, ret) == cs' = [cs EXCEPT ![c] = [f |-> f, sig |-> sig, ret |-> ret, bound |-> <<>>]] /\ UNCHANGED pend
Copy(c, from) == cs' = [cs EXCEPT ![c] = cs[from]] /\ UNCHANGED pend
Bind(c, n, v) == cs' = [cs EXCEPT ![c].bound = [p \in DOMAIN @ \cup {n} |-> IF p = n THEN v ELSE @[p]]] /\ UNCHANGED pend
Unbind(c, n) == cs' = [cs EXCEPT ![c].bound = [p \in DOMAIN @ \ {n} |-> @[p]]] /\ UNCHANGED pend

CallIt(c, args) == pend = <<>> /\ pend' = [c |-> c, args |-> args, hit |-> FALSE] /\ UNCHANGED cs
\* the function is entered once, with exactly these
Hit(kind, f, self, args) ==
    /\ pend # <<>> /\ ~pend.hit
    /\ LET c == pend.c
           s == Seen(c, pend.args)
       IN /\ cs[c].f # -1 /\ cs[c].ret \in {0, 1} /\ Accepted_(c, pend.args)
          /\ IF cs[c].f = 998
             THEN kind = "m" /\ f = 999 /\ self = s[1][2] /\ args = <<<<"i", s[2][2]>>>>
             ELSE kind = "s" /\ f = cs[c].f /\ self = 0 /\ args = s
    /\ pend' = [pend EXCEPT !.hit = TRUE]
    /\ UNCHANGED cs
Result(c, s) == IF cs[c].f = 998 THEN s[1][2] + s[2][2] ELSE Weigh(s, 1)
Throws(c, s) == IF cs[c].f = 998 THEN s[2][2] % 7 = 0 ELSE Len(s) > 0 /\ Total(s, 1) % 7 = 0
Ret(kind, v) ==
    /\ pend # <<>>
    /\ LET c == pend.c
       IN IF cs[c].f = -1 THEN kind = "null" /\ ~pend.hit
          ELSE IF ~Accepted_(c, pend.args) THEN kind = "arg" /\ ~pend.hit
          ELSE LET s == Seen(c, pend.args)
               IN CASE cs[c].ret = 2 -> kind = "ok" /\ v = <<"A", Total(s, 1)>>
                    [] cs[c].ret = 3 -> kind = "ok" /\ v = <<"sA", Total(s, 1)>>
                    [] Throws(c, s) -> pend.hit /\ kind = "thrown" /\ v[2] = IF cs[c].f = 998 THEN s[2][2] ELSE Total(s, 1)
                    [] cs[c].ret = 1 -> pend.hit /\ kind = "void"
                    [] OTHER -> pend.hit /\ kind = "ok" /\ v = <<"i", Result(c, s)>>
    /\ pend' = <<>> /\ UNCHANGED cs

\* ------------------------------------------------------------------ invariants
Counted == \A c \in DOMAIN cs : NumArgs(c) + Cardinality(Bound(c)) = Arity(c)
InOrder == \A c \in DOMAIN cs : \A i, j \in 1..NumArgs(c) : i < j => Open(c)[i] < Open(c)[j]
===============================================================================
