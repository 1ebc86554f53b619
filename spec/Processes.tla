------------------------------- MODULE Processes -------------------------------
(* A topology whose blocks live in several processes. What is connected within  *)
(* a process is direct. What an output sends to another process goes once       *)
(* through a pair of network blocks, one at each side, whatever the number of   *)
(* inputs there. A pair stays as long as its output has something connected in  *)
(* that process.                                                                *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES
    proc,   \* [port -> process]; 0 is the one with the topology
    flows,  \* what is described: set of <<output, input>>
    real,   \* what is committed
    pair,   \* [<<output, process>> -> <<block that sends, block that receives>>]
    kept    \* flows that were there all the time since the last look
pvars == <<proc, flows, real, pair, kept>>

PReset(ps) == proc' = ps /\ flows' = {} /\ real' = {} /\ pair' = <<>> /\ kept' = {}

Local(f) == proc[f[1]] = proc[f[2]]
Hop(f) == <<f[1], proc[f[2]]>>
Hops(fl) == {Hop(f) : f \in {g \in fl : ~Local(g)}}
Edges(fl, pr) == UNION {IF Local(f) THEN {f} ELSE {<<f[1], pr[Hop(f)][1]>>, <<pr[Hop(f)][2], f[2]>>} : f \in fl}

Connect(s, d) == flows' = flows \cup {<<s, d>>} /\ <<s, d>> \notin flows /\ UNCHANGED <<proc, real, pair, kept>>
Disconnect(s, d) == flows' = flows \ {<<s, d>>} /\ <<s, d>> \in flows /\ UNCHANGED <<proc, real, pair, kept>>
Commit(pr) ==
    /\ DOMAIN pr = Hops(flows)
    /\ \A h, g \in DOMAIN pr : h # g => pr[h][1] # pr[g][1] /\ pr[h][2] # pr[g][2]
    /\ \A h \in DOMAIN pr \cap DOMAIN pair : pr[h] = pair[h]
    /\ pair' = pr /\ real' = flows /\ kept' = kept \cap flows
    /\ UNCHANGED <<proc, flows>>
\* a network block could not be made
Refused == Hops(flows) \ DOMAIN pair # {} /\ UNCHANGED pvars
=============================================================================
