------------------------------- MODULE MakeTopo -------------------------------
(* A topology built from its description:
   [text: it is JSON at all, globals: sequence of <<name, expression>>,
    blocks: sequence of [id, path, locals, args, calls, good, pool, whole], conns: sequence of [src, sp, dst, dp, good]]
   "" is the topology itself. What must happen, in order, is a list of steps:
   [e: "ctor"/"did", b, path or name, args]; then it is built, or it failed. *)
EXTENDS Eval

RECURSIVE Bind(_, _, _)
\* names are bound one after the other, each seeing those before it
Bind(vars, k, env) ==
    IF k > Len(vars) THEN env
    ELSE LET n == vars[k][1]
             v == Eval(vars[k][2], env)
         IN Bind(vars, k + 1, [m \in DOMAIN env \cup {n} |-> IF m = n THEN v ELSE env[m]])
Args(xs, env) == [k \in DOMAIN xs |-> Eval(xs[k], env)]
Fine(vs) == \A k \in DOMAIN vs : vs[k].t # "e"

Step_(e, b, name, args) == [e |-> e, b |-> b, name |-> name, args |-> args]
RECURSIVE Calls(_, _, _, _)
\* [ok, steps]: the calls from the k-th on
Calls(cs, k, b, env) ==
    IF k > Len(cs) THEN [ok |-> TRUE, steps |-> <<>>]
    ELSE LET vs == Args(cs[k].args, env)
         IN IF ~Fine(vs) \/ ~cs[k].good THEN [ok |-> FALSE, steps |-> <<>>]
            ELSE LET rest == Calls(cs, k + 1, b, env)
                 IN [ok |-> rest.ok, steps |-> <<Step_("did", b, cs[k].name, vs)>> \o rest.steps]
RECURSIVE Blocks(_, _, _)
Blocks(d, k, b) ==
    IF k > Len(d.blocks) THEN [ok |-> TRUE, steps |-> <<>>]
    ELSE LET x == d.blocks[k]
             env == Bind(x.locals, 1, Bind(d.globals, 1, <<>>))
             vs == Args(x.args, env)
         IN IF ~x.whole \/ ~x.good \/ ~Fine(vs) THEN [ok |-> FALSE, steps |-> <<>>]
            ELSE LET c == Calls(x.calls, 1, b, env)
                     first == <<Step_("ctor", b, x.path, vs)>> \o c.steps
                 IN IF ~c.ok \/ ~x.pool THEN [ok |-> FALSE, steps |-> first]
                    ELSE LET rest == Blocks(d, k + 1, b + 1) IN [ok |-> rest.ok, steps |-> first \o rest.steps]
Plan(d) == IF ~d.text THEN [ok |-> FALSE, steps |-> <<>>]
           ELSE LET p == Blocks(d, 1, 1) IN [ok |-> p.ok /\ \A k \in DOMAIN d.conns : d.conns[k].good, steps |-> p.steps]

\* the block an id stands for: the last one with it
Who(d, id) == CHOOSE k \in DOMAIN d.blocks : d.blocks[k].id = id /\ \A j \in DOMAIN d.blocks : j > k => d.blocks[j].id # id
Used(d) == {Who(d, i) : i \in UNION {{d.conns[k].src, d.conns[k].dst} : k \in DOMAIN d.conns} \ {""}}
Ins(d) == {d.conns[k].sp : k \in {j \in DOMAIN d.conns : d.conns[j].src = ""}}
Outs(d) == {d.conns[k].dp : k \in {j \in DOMAIN d.conns : d.conns[j].dst = ""}}
\* who is really connected, with block `in` ahead of the inputs and `out` behind the outputs
Edges(d, in, out) == {LET c == d.conns[k] IN <<IF c.src = "" THEN in ELSE Who(d, c.src), c.sp, IF c.dst = "" THEN out ELSE Who(d, c.dst), c.dp>> : k \in DOMAIN d.conns}
                     \cup {<<out, 0, in, 0>>}
===============================================================================
