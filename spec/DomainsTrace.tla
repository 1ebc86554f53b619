------------------------------ MODULE DomainsTrace -----------------------------
EXTENDS Domains, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l,
    names    \* copiers seen
tvars == <<dvars, l, names>>
Init == l = 0 /\ port = <<>> /\ flows = {} /\ real = {} /\ via = <<>> /\ bridge = <<>> /\ mgr = <<>> /\ kept = {} /\ names = {} 
SetOf(s) == {s[k] : k \in 1..Len(s)}
Once(s) == Cardinality(SetOf(s)) = Len(s)
IsPort(n) == n \in DOMAIN port
At(rows, key, n) == LET m == {x \in SetOf(rows) : x[key] = n} IN IF m = {} THEN <<>> ELSE (CHOOSE x \in m : TRUE).n
Got(r, f) == LET m == {x \in SetOf(r.got) : x.o = f[1] /\ x.i = f[2]} IN IF m = {} THEN <<>> ELSE (CHOOSE x \in m : TRUE).n
Rising(s) == \A k \in 1..Len(s) - 1 : s[k] < s[k + 1]
Tag(t) == IF t = "plain" THEN <<"plain", "">> ELSE CHOOSE x \in {<<p, d>> : p \in DOMAIN port, d \in {"", "g", "h"}} : x[1] \o ":" \o x[2] = t

\* the copiers of a committed graph: the flows that can be told to go through them
Copiers(r) == {e[1] : e \in SetOf(r.conns)} \cup {e[2] : e \in SetOf(r.conns)}
CopierOf(r, p) ==
    LET E == SetOf(r.conns)
        carried == {f \in flows : Problem(f, flows) = {p}}
    IN {c \in {x \in Copiers(r) : ~IsPort(x)} :
            /\ {e[1] : e \in {x \in E : x[2] = c}} = {f[1] : f \in carried}
            /\ {e[2] : e \in {x \in E : x[1] = c}} = {f[2] : f \in carried}}

Step(r) ==
    CASE r.e = "run" -> DReset([p \in {x.p : x \in SetOf(r.ports)} |-> LET y == CHOOSE x \in SetOf(r.ports) : x.p = p IN [isin |-> y.isin, dom |-> y.dom, modes |-> y.modes]]) /\ names' = {}
      [] r.e = "connect" -> Connect(r.s, r.d) /\ UNCHANGED names
      [] r.e = "disconnect" -> Disconnect(r.s, r.d) /\ UNCHANGED names
      [] r.e = "commit" ->
            IF ~r.ok THEN Refused /\ SetOf(r.conns) = Edges(real, [p \in DOMAIN bridge \cap Bridged(real) |-> bridge[p]]) /\ UNCHANGED names
            ELSE /\ Once(r.conns)
                 /\ \A p \in Bridged(flows) : CopierOf(r, p) # {}
                 /\ \E br \in {b \in [Bridged(flows) -> {x \in Copiers(r) : ~IsPort(x)}] :
                                \A p \in Bridged(flows) : b[p] \in CopierOf(r, p) /\ (p \in DOMAIN bridge => b[p] = bridge[p]) /\ (p \notin DOMAIN bridge => b[p] \notin names)} :
                        Commit(br) /\ SetOf(r.conns) = Edges(flows, br)
                 /\ names' = names \cup {x \in Copiers(r) : ~IsPort(x)}
      [] r.e = "probe" ->
            /\ \A x \in SetOf(r.got) : Rising(x.n) /\ SetOf(x.n) \subseteq SetOf(At(r.sent, "o", x.o))
            /\ \A f \in (IF r.quiet THEN real ELSE kept) : Got(r, f) = At(r.sent, "o", f[1])
            /\ r.quiet => \A x \in SetOf(r.got) : <<x.o, x.i>> \in real
            /\ r.quiet => \A x \in SetOf(r.mgr) : x.o \in DOMAIN mgr => \A t \in SetOf(x.m) : Tag(t) \in mgr[x.o]
            /\ kept' = real /\ UNCHANGED <<port, flows, real, via, bridge, mgr, names>>
      [] r.e = "end" -> UNCHANGED <<dvars, names>>
      [] OTHER -> FALSE

Next == l < Len(Trace) /\ Step(Trace[l + 1]) /\ l' = l + 1
Spec == Init /\ [][Next]_tvars
Accepted ==
    LET d == TLCGet("stats").diameter - 1
    IN IF d = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d + 1, Trace[d + 1].e>>) /\ FALSE
=============================================================================
