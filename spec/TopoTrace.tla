------------------------------ MODULE TopoTrace -------------------------------
EXTENDS Topo, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<tpvars, l>>
Init == l = 0 /\ leaf = {} /\ topo = {} /\ ins = <<>> /\ outs = <<>> /\ flows = <<>> /\ real = {}
Skip == UNCHANGED tpvars
SetOf(s) == {s[i] : i \in 1..Len(s)}
Once(s) == Cardinality(SetOf(s)) = Len(s)
Fl(r) == <<r.s, r.sp, r.d, r.dp>>

Step(r) ==
    CASE r.e = "run" ->
            LET ns == SetOf(r.nodes)
                lf == {n \in ns : ~n.topo}
                Of(x) == CHOOSE n \in ns : n.n = x
            IN TReset({n.n : n \in lf}, {n.n : n \in ns \ lf}, [x \in {n.n : n \in lf} |-> SetOf(Of(x).ins)], [x \in {n.n : n \in lf} |-> SetOf(Of(x).outs)])
      [] r.e = "connect" -> (r.ok \/ r.kept) /\ Connect(r.t, Fl(r), r.ok)
      [] r.e = "disconnect" -> (r.ok \/ r.kept) /\ Disconnect(r.t, Fl(r), r.ok)
      [] r.e = "dall" -> DisconnectAll(r.t, r.rec)
      [] r.e = "commit" -> Commit(r.ok)
      [] r.e = "probe" -> Once(r.got) /\ SetOf(r.got) = real /\ SetOf(r.act) = Active /\ Skip
      [] r.e = "ports" ->
            /\ Once(r.ins) /\ Once(r.outs)
            /\ IF r.n \in topo THEN SetOf(r.ins) = InNames(flows, r.n) /\ SetOf(r.outs) = OutNames(flows, r.n)
               ELSE /\ ins[r.n] \subseteq SetOf(r.ins) /\ outs[r.n] \subseteq SetOf(r.outs)
                    /\ \A p \in SetOf(r.ins) : HasPort(ins[r.n], p)
                    /\ \A p \in SetOf(r.outs) : HasPort(outs[r.n], p)
                    /\ \A e \in real : (e[1] = r.n => e[2] \in SetOf(r.outs)) /\ (e[3] = r.n => e[4] \in SetOf(r.ins))
            /\ Skip
      [] r.e = "dump" ->
            /\ Once(r.blocks)
            /\ CASE r.mode = "top" -> Once(r.conns) /\ SetOf(r.conns) = flows[r.t] /\ SetOf(r.blocks) = {o \in leaf \cup (topo \ {r.t}) : \E f \in flows[r.t] : f[1] = o \/ f[3] = o}
                 [] r.mode = "rendered" -> Once(r.conns) /\ SetOf(r.conns) = real /\ SetOf(r.blocks) = Active
                 [] r.mode = "flat" -> NoPass => SetOf(r.conns) = Flat /\ SetOf(r.blocks) = Declared
            /\ Skip
      [] r.e = "stats" -> Once(r.blocks) /\ SetOf(r.blocks) = Declared /\ Skip
      [] r.e = "held" -> (Declared \cup Active) \subseteq SetOf(r.alive) /\ Skip
      [] r.e = "end" -> r.alive = 0 /\ Skip
      [] OTHER -> FALSE

Next == l < Len(Trace) /\ Step(Trace[l + 1]) /\ l' = l + 1
Spec == Init /\ [][Next]_tvars
Accepted ==
    LET d == TLCGet("stats").diameter - 1
    IN IF d = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d + 1, Trace[d + 1].e>>) /\ FALSE
=============================================================================
