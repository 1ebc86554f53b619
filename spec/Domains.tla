-------------------------------- MODULE Domains --------------------------------
(* Ports in memory domains. A port can bring a buffer manager for what is       *)
(* connected to it (CUSTOM), leave it to the others (ABDICATE) or refuse their  *)
(* domain (ERROR). Where the two ends do not fit, the data goes through a       *)
(* copier, one per output (or per input) that has the problem. Copiers are in   *)
(* ordinary memory, the domain "", and bring no manager.                        *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES
    port,   \* [port -> [isin, dom, modes: domain -> mode]]
    flows,  \* what is described: set of <<output, input>>
    real,   \* what is committed: set of <<output, input>>
    via,    \* [committed flow -> <<>> directly, or <<name of the copier>>]
    bridge, \* [port with a problem -> name of its copier]
    mgr,    \* [output -> the managers that its buffers may come from]
    kept    \* flows that went the same way since the last look
dvars == <<port, flows, real, via, bridge, mgr, kept>>

DReset(ps) == port' = ps /\ flows' = {} /\ real' = {} /\ via' = <<>> /\ bridge' = <<>> /\ mgr' = <<>> /\ kept' = {}

Mode(p, d) == port[p].modes[d]
Dom(p) == port[p].dom
Peers(p, fl) == IF port[p].isin THEN {f[1] : f \in {g \in fl : g[2] = p}} ELSE {f[2] : f \in {g \in fl : g[1] = p}}

\* can everything connected to p be connected directly, as far as p is concerned
Fits(p, fl) ==
    LET subs == Peers(p, fl)
        doms == {Dom(q) : q \in subs}
        d == CHOOSE x \in doms : TRUE
    IN /\ Cardinality(doms) = 1
       /\ \/ Mode(p, d) = "ABDICATE"
          \/ /\ Mode(p, d) = "CUSTOM"
             /\ port[p].isin => Cardinality(subs) = 1
             /\ \A q \in subs : Mode(q, Dom(p)) = "ABDICATE"
\* the port whose copier carries the flow, if any
\* (an input cannot give its own memory to a copier when others write to it as well)
NeedsCopier(p, fl) ==
    \/ ~Fits(p, fl)
    \/ /\ port[p].isin
       /\ Cardinality(Peers(p, fl)) > 1
       /\ Mode(p, "") = "CUSTOM"
       /\ \E q \in Peers(p, fl) : ~Fits(q, fl)
Problem(f, fl) == IF NeedsCopier(f[2], fl) THEN {f[2]} ELSE IF ~Fits(f[1], fl) THEN {f[1]} ELSE {}
Bridged(fl) == UNION {Problem(f, fl) : f \in fl}
Direct(fl) == {f \in fl : Problem(f, fl) = {}}

\* what an output (or the copier of a port) sees at its other side
DirectIns(o, fl) == {f[2] : f \in {g \in Direct(fl) : g[1] = o}}
ToCopier(o, fl) == \E f \in fl : f[1] = o /\ Problem(f, fl) # {}
CopierIns(p, fl) == {f[2] : f \in {g \in fl : Problem(g, fl) = {p}}}
Custom(S, d) == {i \in S : Mode(i, d) = "CUSTOM"}
\* two inputs in domains of their own want their own memory to be written by the same output
Contradiction(fl) ==
    \/ \E o \in {f[1] : f \in fl} : Cardinality({i \in Custom(DirectIns(o, fl), Dom(o)) : Dom(i) # ""}) > 1
    \/ \E p \in Bridged(fl) : Cardinality({i \in Custom(CopierIns(p, fl), "") : Dom(i) # ""}) > 1

Own(o, fl) ==
    LET ds == {Dom(i) : i \in DirectIns(o, fl)} \cup (IF ToCopier(o, fl) THEN {""} ELSE {})
    IN {<<o, d>> : d \in {x \in ds : Mode(o, x) = "CUSTOM"}}
Theirs(o, fl) == {<<i, Dom(o)>> : i \in Custom(DirectIns(o, fl), Dom(o))}
Managers(o, fl) ==
    LET s == Own(o, fl) \cup Theirs(o, fl)
    IN IF s = {} THEN {<<"plain", "">>} ELSE s

Edges(fl, br) ==
    UNION {IF Problem(f, fl) = {} THEN {f} ELSE LET c == br[CHOOSE p \in Problem(f, fl) : TRUE] IN {<<f[1], c>>, <<c, f[2]>>} : f \in fl}

Connect(s, d) == flows' = flows \cup {<<s, d>>} /\ <<s, d>> \notin flows /\ UNCHANGED <<port, real, via, bridge, mgr, kept>>
Disconnect(s, d) == flows' = flows \ {<<s, d>>} /\ <<s, d>> \in flows /\ UNCHANGED <<port, real, via, bridge, mgr, kept>>

\* br: the copiers after the commit
Commit(br) ==
    /\ DOMAIN br = Bridged(flows)
    /\ \A p, q \in DOMAIN br : p # q => br[p] # br[q]
    /\ \A p \in DOMAIN br \cap DOMAIN bridge : br[p] = bridge[p]
    /\ bridge' = br
    /\ real' = flows
    /\ LET way == [f \in flows |-> IF Problem(f, flows) = {} THEN <<>> ELSE <<br[CHOOSE p \in Problem(f, flows) : TRUE]>>]
       IN /\ via' = way
          /\ kept' = {f \in kept \cap flows : way[f] = via[f]}
    /\ mgr' = [o \in {f[1] : f \in flows} |-> Managers(o, flows)]
    /\ UNCHANGED <<port, flows>>
Refused == Contradiction(flows) /\ UNCHANGED dvars
=============================================================================
