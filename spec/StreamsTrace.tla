----------------------------- MODULE StreamsTrace -----------------------------
(* Checks a trace recorded from the real runtime (harness/flow.cpp) against    *)
(* Streams. One trace holds many runs; a "run" record starts the next one.     *)
EXTENDS Streams, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l,     \* number of records accepted
          bi,    \* block -> its ports
          res    \* input -> reserve last seen
tvars == <<svars, l, bi, res>>

Lab(x) == [idx |-> x[1], id |-> x[2], w |-> x[3]]
Labs(s) == [k \in DOMAIN s |-> Lab(s[k])]
LabSet(s) == {Lab(s[k]) : k \in DOMAIN s}
ToSet(s) == {s[k] : k \in DOMAIN s}
MinOf(S) == IF S = {} THEN 1000000 ELSE CHOOSE x \in S : \A y \in S : x <= y

Init ==
    /\ l = 0 /\ bi = <<>> /\ res = <<>>
    /\ szI = <<>> /\ szO = <<>> /\ on = {} /\ soft = {} /\ q = <<>> /\ acc = <<>> /\ alab = <<>>
    /\ due = <<>> /\ pend = <<>> /\ ctot = <<>> /\ ptot = <<>> /\ ltot = <<>> /\ pltot = <<>>

Run(r) ==
    /\ Reset(ToSet(r.ins), ToSet(r.outs), ToSet(r.blocks), r.szi, r.szo)
    /\ bi' = [b \in ToSet(r.blocks) |-> r.bi[CHOOSE k \in DOMAIN r.bi : r.bi[k].b = b]]
    /\ res' = [i \in ToSet(r.ins) |-> 0]

\* smallest number of elements among the ports, as reported to work()
InfoOk(r) ==
    LET mi == MinOf({r.ins[k].n : k \in DOMAIN r.ins})
        mo == MinOf({Min2(1000000, r.outs[k].n) : k \in DOMAIN r.outs})
    IN /\ r.minIn = mi /\ r.minAllIn = mi /\ r.minOut = mo /\ r.minAllOut = mo
       /\ r.minE = Min2(mi, mo) /\ r.minAllE = Min2(mi, mo)
       /\ r.ptrs

Begin(r) ==
    /\ \/ r.ins = <<>>
       \/ \E k \in DOMAIN r.ins : r.ins[k].n >= Min2(r.res[k], r.res0[k]) \/ r.ins[k].msg
    /\ InfoOk(r)
    /\ \A k \in DOMAIN r.ins : r.ins[k].sz = szI[r.ins[k].p]
    /\ \A k \in DOMAIN r.outs : r.outs[k].sz = szO[r.outs[k].p] /\ r.outs[k].n = r.outs[k].cap \div r.outs[k].sz
    /\ WorkBegin(r.b, [k \in DOMAIN r.ins |-> [p |-> r.ins[k].p, v |-> r.ins[k].v, n |-> r.ins[k].n, tot |-> r.ins[k].tot, labs |-> Labs(r.ins[k].labs)]], r.outs)
    /\ UNCHANGED <<bi, res>>

NewRes(r) == [i \in DOMAIN res |-> IF i \in ToSet(bi[r.b].ins)
                THEN r.res[CHOOSE k \in DOMAIN bi[r.b].ins : bi[r.b].ins[k] = i] ELSE res[i]]

End(r) ==
    LET ci == {r.cons[k].i : k \in DOMAIN r.cons}
        cons == [i \in ci |-> r.cons[CHOOSE k \in DOMAIN r.cons : r.cons[k].i = i].n]
        rms == {<<r.rm[k].i, r.rm[k].lab[1], r.rm[k].lab[2]>> : k \in DOMAIN r.rm}
    IN /\ WorkEnd(r.b, cons, [k \in DOMAIN r.prod |-> [o |-> r.prod[k].o, v |-> r.prod[k].v, labs |-> LabSet(r.prod[k].labs)]], rms)
       \* a removed label is gone at once
       /\ \A k \in DOMAIN r.rm : r.rm[k].nleft = r.rm[k].nbefore - 1
       /\ res' = NewRes(r)
       /\ UNCHANGED bi

Prop(r) ==
    /\ Propagate(r.b, r.i, Labs(r.labs), ToSet(bi[r.b].ins),
          IF r.mode = 0 THEN {<<o, x>> : o \in ToSet(bi[r.b].outs), x \in LabSet(r.labs)}
          ELSE UNION {{<<r.post[k].o, x>> : x \in LabSet(r.post[k].labs)} : k \in DOMAIN r.post})
    /\ UNCHANGED <<bi, res>>

\* nothing is lost, nothing is left behind that a block is waiting for
Idle(r) ==
    /\ \A k \in DOMAIN r.ins : LET p == r.ins[k] IN
        /\ p.tot = ctot[p.p] /\ p.labs = ltot[p.p]
        /\ p.enq >= PendingMin(p.p) /\ p.enq <= PendingMax(p.p)
        /\ PendingMin(p.p) = PendingMax(p.p) => p.enql = LabelsLeft(p.p)
        /\ due[p.p] = {}
        /\ p.enq \div szI[p.p] < Max2(1, res[p.p])
    /\ \A k \in DOMAIN r.outs : LET p == r.outs[k] IN p.tot = ptot[p.p] /\ p.labs = pltot[p.p]
    /\ \A b \in DOMAIN pend : pend[b] = <<>>

Skip == UNCHANGED <<svars, bi, res>>

Step(r) ==
    CASE r.e = "run" -> Run(r)
      [] r.e \in {"mk", "res"} -> res' = NewRes(r) /\ UNCHANGED <<svars, bi>>
      [] r.e = "wb" -> Begin(r)
      [] r.e = "we" -> End(r)
      [] r.e = "prop" -> Prop(r)
      [] r.e = "held" -> r.was = r.now /\ Skip
      [] r.e = "link" -> Linked(r.o, r.i) /\ UNCHANGED <<bi, res>>
      [] r.e = "unlink" -> Unlinked(r.o, r.i) /\ UNCHANGED <<bi, res>>
      [] r.e = "opening" -> Opening(r.o, r.i) /\ UNCHANGED <<bi, res>>
      [] r.e = "closing" -> Closing(r.o, r.i) /\ UNCHANGED <<bi, res>>
      [] r.e = "idle" -> Idle(r) /\ Skip
      [] r.e \in {"down", "gone", "freed", "act", "commit", "cthrow", "ccaught", "athrow", "dthrow", "in", "out", "activated", "deactivated", "post", "posted", "pop", "peek", "slot", "probed", "ret", "wm", "turn",
                  "slink", "sopening", "sclosing", "sunlink"} -> Skip
      [] OTHER -> FALSE      \* crash, stuck, neveridle, ...

Next == l < Len(Trace) /\ Step(Trace[l + 1]) /\ l' = l + 1

Spec == Init /\ [][Next]_tvars

\* diameter of the state graph = 1 + records accepted
Accepted ==
    LET d == TLCGet("stats").diameter - 1
    IN IF d = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d + 1, Trace[d + 1].e>>) /\ FALSE
=============================================================================
