-------------------------------- MODULE MCEval --------------------------------
(* How expressions with lists in them are evaluated: the lists at the top are evaluated first, each by the same
   procedure, and given temporary names; then the rest is evaluated with these names in place of the lists. All
   levels share one table of names. For every small expression this gives what the expression means. *)
EXTENDS Eval
CONSTANT Wide
VARIABLE x
Lit(n) == [k |-> "lit", v |-> N(n)]
Nm(s) == [k |-> "name", v |-> s]
Bi(op, a, b) == [k |-> "bin", op |-> op, a |-> a, b |-> b]
Li(s) == [k |-> "list", v |-> s]

Put(env, n, v) == [m \in DOMAIN env \cup {n} |-> IF m = n THEN v ELSE env[m]]
Tmp(i) == "__tmp__" \o ToString(i)

\* the lists at the top of an expression, left to right, and the expression without them
RECURSIVE Tops(_), Flat(_, _)
Tops(e) == CASE e.k = "list" -> <<e>> [] e.k = "bin" -> Tops(e.a) \o Tops(e.b) [] OTHER -> <<>>
Flat(e, i) == CASE e.k = "list" -> Nm(Tmp(i)) [] e.k = "bin" -> Bi(e.op, Flat(e.a, i), Flat(e.b, i + Len(Tops(e.a)))) [] OTHER -> e

\* [v, env]: the value, and the table afterwards
RECURSIVE Run(_, _), Each(_, _, _)
Each(s, k, env) ==   \* values of all of s, in order
    IF k > Len(s) THEN [v |-> <<>>, env |-> env]
    ELSE LET h == Run(s[k], env)
             t == Each(s, k + 1, h.env)
         IN [v |-> <<h.v>> \o t.v, env |-> t.env]
RECURSIVE Bound(_, _, _)
Bound(vs, k, env) == IF k > Len(vs) THEN env ELSE Bound(vs, k + 1, Put(env, Tmp(k - 1), vs[k]))
Run(e, env) ==
    IF e.k = "list"
    THEN LET m == Each(e.v, 1, env)
         IN [v |-> IF \E k \in DOMAIN m.v : m.v[k].t = "e" THEN Err ELSE L(m.v), env |-> m.env]
    ELSE LET m == Each(Tops(e), 1, env)
             env2 == Bound(m.v, 1, m.env) \* only after all are evaluated
         IN [v |-> IF \E k \in DOMAIN m.v : m.v[k].t = "e" THEN Err ELSE Eval(Flat(e, 0), env2), env |-> env2]

\* expressions, written so that any two can be compared: <<kind, number, parts>>
D0 == {<<"lit", 1, <<>>>>, <<"lit", 3, <<>>>>, <<"name", 0, <<>>>>}
L12(D) == {<<"list", 0, <<p>>>> : p \in D} \cup {<<"list", 0, <<p, q>>>> : p \in D, q \in D}
L1(D) == {<<"list", 0, <<p>>>> : p \in D}
B2(D, T) == {<<op, 0, <<p, q>>>> : op \in {"+", "*"}, p \in D, q \in T}
RECURSIVE Tree(_)
Tree(c) == CASE c[1] = "lit" -> Lit(c[2]) [] c[1] = "name" -> Nm("a")
             [] c[1] = "list" -> Li([k \in DOMAIN c[3] |-> Tree(c[3][k])])
             [] OTHER -> Bi(c[1], Tree(c[3][1]), Tree(c[3][2]))
D1 == D0 \cup B2(D0, D0) \cup L12(D0)
D2 == D1 \cup B2(D1, D1) \cup L1(D1)
Few == D0 \cup L1(D0)
Some == D1 \cup B2(Few, Few)
Init == x \in IF Wide THEN D2 \cup B2(D1, L1(D2)) \cup B2(L1(D2), Few) ELSE Some \cup B2(Few, L1(Some)) \cup B2(L1(Some), Few)
Next == UNCHANGED x
Spec == Init /\ [][Next]_x
Start == [m \in {"a"} |-> N(2)]
\* lists inside lists do not add up, so that operands have comparable values
RECURSIVE Sound(_)
Num(v) == v.t = "n" \/ (v.t = "l" /\ \A k \in DOMAIN v.v : v.v[k].t = "n")
Sound(e) == CASE e.k = "list" -> \A k \in DOMAIN e.v : Sound(e.v[k])
              [] e.k = "bin" -> Sound(e.a) /\ Sound(e.b) /\ Num(Eval(e.a, Start)) /\ Num(Eval(e.b, Start))
              [] OTHER -> TRUE
Right == LET e == Tree(x) IN Sound(e) => Like(Run(e, Start).v, Eval(e, Start))
===============================================================================
