--------------------------------- MODULE Eval ---------------------------------
(* What an expression means. A value is [t, v]: numbers "n", truth values "b",
   strings "s", lists "l", maps "m" (pairs), "e": it is an error.
   env: names -> values *)
EXTENDS Integers, Sequences, FiniteSets, TLC
N(x) == [t |-> "n", v |-> x]
B(x) == [t |-> "b", v |-> x]
S(x) == [t |-> "s", v |-> x]
L(x) == [t |-> "l", v |-> x]
Err == [t |-> "e", v |-> ""]
Range(s) == {s[k] : k \in DOMAIN s}

Same(a, b) == a.t = b.t /\ a.v = b.v
Bin(op, a, b) ==
    CASE a.t = "e" \/ b.t = "e" -> Err
      [] op = "+" /\ a.t = "n" /\ b.t = "n" -> N(a.v + b.v)
      [] op = "-" /\ a.t = "n" /\ b.t = "n" -> N(a.v - b.v)
      [] op = "*" /\ a.t = "n" /\ b.t = "n" -> N(a.v * b.v)
      [] op = "<" /\ a.t = "n" /\ b.t = "n" -> B(a.v < b.v)
      [] op = "==" /\ a.t = b.t -> B(a.v = b.v)
      [] op = "&&" -> B(a.v /\ b.v)
      [] op = "||" -> B(a.v \/ b.v)
      [] op = "//" -> S(a.v \o b.v)
      [] op \in {"+", "-"} /\ a.t = "l" /\ b.t = "l" ->
            IF Len(a.v) # Len(b.v) THEN Err
            ELSE L([k \in 1..Len(a.v) |-> IF op = "+" THEN N(a.v[k].v + b.v[k].v) ELSE N(a.v[k].v - b.v[k].v)])
      [] op = "*" /\ a.t = "l" /\ b.t = "n" -> L([k \in 1..Len(a.v) |-> N(a.v[k].v * b.v)])
      [] op = "*" /\ a.t = "n" /\ b.t = "l" -> L([k \in 1..Len(b.v) |-> N(a.v * b.v[k].v)])
      [] op = "*" /\ a.t = "l" /\ b.t = "l" /\ Len(a.v) = 1 /\ Len(b.v) = 1 -> N(a.v[1].v * b.v[1].v)
      [] OTHER -> Err

RECURSIVE Eval(_, _)
Eval(x, env) ==
    CASE x.k = "lit" -> x.v
      [] x.k = "name" -> IF x.v \in DOMAIN env THEN env[x.v] ELSE Err
      [] x.k = "bin" -> Bin(x.op, Eval(x.a, env), Eval(x.b, env))
      [] x.k = "if" -> LET c == Eval(x.c, env) IN IF c.t # "b" THEN Err ELSE IF c.v THEN Eval(x.a, env) ELSE Eval(x.b, env)
      [] x.k = "call" -> LET vs == [k \in DOMAIN x.v |-> Eval(x.v[k], env)]
                             up == x.f = "max"
                         IN IF \E k \in DOMAIN vs : vs[k].t # "n" THEN Err
                            ELSE vs[CHOOSE k \in DOMAIN vs : \A j \in DOMAIN vs : IF up THEN vs[j].v <= vs[k].v ELSE vs[j].v >= vs[k].v]
      [] x.k = "list" -> LET vs == [k \in DOMAIN x.v |-> Eval(x.v[k], env)]
                         IN IF \E k \in DOMAIN vs : vs[k].t = "e" THEN Err ELSE L(vs)
      [] x.k = "map" -> LET ps == [k \in DOMAIN x.v |-> <<Eval(x.v[k][1], env), Eval(x.v[k][2], env)>>]
                        IN IF \E k \in DOMAIN ps : ps[k][1].t = "e" \/ ps[k][2].t = "e" THEN Err ELSE [t |-> "m", v |-> ps]

\* the same value: pairs of a map have no order
RECURSIVE Like(_, _)
Like(a, b) ==
    /\ a.t = b.t
    /\ CASE a.t = "l" -> Len(a.v) = Len(b.v) /\ \A k \in 1..Len(a.v) : Like(a.v[k], b.v[k])
         [] a.t = "m" -> Len(a.v) = Len(b.v) /\ \A i \in 1..Len(a.v) : \E j \in 1..Len(b.v) : Like(a.v[i][1], b.v[j][1]) /\ Like(a.v[i][2], b.v[j][2])
         [] OTHER -> a.v = b.v
===============================================================================
