----------------------------- MODULE ProcessesTrace ----------------------------
EXTENDS Processes, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l,
    node,    \* process + 1 -> the machine it runs at
    spare    \* a refused commit may leave blocks behind until the next one
tvars == <<pvars, l, node, spare>>
Init == l = 0 /\ proc = <<>> /\ flows = {} /\ real = {} /\ pair = <<>> /\ kept = {} /\ node = <<>> /\ spare = FALSE
SetOf(s) == {s[k] : k \in 1..Len(s)}
Once(s) == Cardinality(SetOf(s)) = Len(s)
At(rows, key, n) == LET m == {x \in SetOf(rows) : x[key] = n} IN IF m = {} THEN <<>> ELSE (CHOOSE x \in m : TRUE).n
Got(r, f) == LET m == {x \in SetOf(r.got) : x.o = f[1] /\ x.i = f[2]} IN IF m = {} THEN <<>> ELSE (CHOOSE x \in m : TRUE).n
Rising(s) == \A k \in 1..Len(s) - 1 : s[k] < s[k + 1]

Senders(r) == {x.t : x \in SetOf(r.nets)}
\* the pairs of a committed graph: what an output sends to and where the other end is
Ways(r, h) ==
    {<<x.t, x.r>> : x \in {y \in SetOf(r.nets) :
        /\ <<h[1], y.t>> \in SetOf(r.conns) /\ y.ends = 2 /\ y.paired
        /\ y.tproc = proc[h[1]] /\ y.rproc = h[2]
        \* it listens where it can be found from the other side
        /\ \A m \in {y.tproc, y.rproc} : node[y.binds + 1] = node[1] => node[m + 1] = node[1]
        /\ \A a \in SetOf(y.hosts) : a = "10.0.0." \o ToString(node[y.binds + 1])}}

Step(r) ==
    CASE r.e = "run" ->
            /\ PReset([p \in {x.p : x \in SetOf(r.ports)} |-> (CHOOSE x \in SetOf(r.ports) : x.p = p).proc])
            /\ node' = r.node /\ spare' = FALSE
      [] r.e = "connect" -> Connect(r.s, r.d) /\ UNCHANGED <<node, spare>>
      [] r.e = "disconnect" -> Disconnect(r.s, r.d) /\ UNCHANGED <<node, spare>>
      [] r.e = "commit" ->
            /\ Once(r.conns)
            /\ UNCHANGED node
            /\ spare' = ~r.ok
            /\ IF ~r.ok THEN Refused /\ SetOf(r.conns) = Edges(real, pair)
               ELSE /\ \A h \in Hops(flows) : Cardinality(Ways(r, h)) = 1
                    /\ LET pr == [h \in Hops(flows) |-> CHOOSE w \in Ways(r, h) : TRUE]
                       IN Commit(pr) /\ SetOf(r.conns) = Edges(flows, pr)
      [] r.e = "probe" ->
            /\ \A x \in SetOf(r.got) : Rising(x.n) /\ SetOf(x.n) \subseteq SetOf(At(r.sent, "o", x.o))
            /\ \A f \in (IF r.quiet THEN real ELSE kept) : Got(r, f) = At(r.sent, "o", f[1])
            /\ r.quiet => \A x \in SetOf(r.got) : <<x.o, x.i>> \in real
            /\ ~spare => r.alive = 2 * Cardinality(DOMAIN pair)
            /\ kept' = real /\ UNCHANGED <<proc, flows, real, pair, node, spare>>
      [] r.e = "gone" -> r.alive = 0 /\ UNCHANGED <<pvars, node, spare>>
      [] r.e = "end" -> UNCHANGED <<pvars, node, spare>>
      [] OTHER -> FALSE

Next == l < Len(Trace) /\ Step(Trace[l + 1]) /\ l' = l + 1
Spec == Init /\ [][Next]_tvars
Accepted ==
    LET d == TLCGet("stats").diameter - 1
    IN IF d = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d + 1, Trace[d + 1].e>>) /\ FALSE
=============================================================================
