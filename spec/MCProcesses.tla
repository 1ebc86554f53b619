------------------------------ MODULE MCProcesses ------------------------------
(* Every placement of a few ports and every history of edits, commits (also      *)
(* refused ones) and traffic: each described flow has one way, an item crosses   *)
(* to a process once, and flows that stay lose nothing.                          *)
EXTENDS Processes, TLC
CONSTANTS Outs, Ins, Procs, MaxSent, MaxEdits
VARIABLES
    sent,   \* [output -> number of items sent]
    chan,   \* [sending block -> items under way]
    got,    \* [flow -> items that arrived]
    since,  \* [committed flow -> items its output had sent when it was committed]
    edits, made
vars == <<pvars, sent, chan, got, since, edits, made>>

Init == /\ proc \in [Outs \cup Ins -> Procs] /\ \A o \in Outs : TRUE
        /\ flows = {} /\ real = {} /\ pair = <<>> /\ kept = {}
        /\ sent = [o \in Outs |-> 0] /\ chan = <<>> /\ got = [f \in Outs \X Ins |-> <<>>] /\ since = <<>> /\ edits = 0 /\ made = 0

Edit == /\ edits < MaxEdits /\ edits' = edits + 1
        /\ \E o \in Outs, i \in Ins : Connect(o, i) \/ Disconnect(o, i)
        /\ UNCHANGED <<sent, chan, got, since, made>>

RECURSIVE Number(_, _)
Number(S, n) == IF S = {} THEN <<>> ELSE LET h == CHOOSE x \in S : TRUE IN (h :> <<"t" \o ToString(n), "r" \o ToString(n)>>) @@ Number(S \ {h}, n + 1)
DoCommit ==
    /\ flows # real
    /\ LET fresh == Hops(flows) \ DOMAIN pair
           pr == Number(fresh, made + 1) @@ [h \in Hops(flows) \cap DOMAIN pair |-> pair[h]]
       IN /\ Commit(pr)
          /\ made' = made + Cardinality(fresh)
          /\ chan' = [t \in {pr[h][1] : h \in DOMAIN pr} |-> IF t \in DOMAIN chan THEN chan[t] ELSE <<>>]
          /\ since' = [f \in flows |-> IF f \in real THEN since[f] ELSE sent[f[1]]]
    /\ UNCHANGED <<sent, got, edits>>
DoRefuse == Refused /\ UNCHANGED <<sent, chan, got, since, edits, made>>
Send(o) ==
    /\ sent[o] < MaxSent
    /\ sent' = [sent EXCEPT ![o] = @ + 1]
    /\ got' = [f \in DOMAIN got |-> IF f \in real /\ f[1] = o /\ Local(f) THEN Append(got[f], sent'[o]) ELSE got[f]]
    /\ chan' = [t \in DOMAIN chan |-> IF \E h \in DOMAIN pair : h[1] = o /\ pair[h][1] = t THEN Append(chan[t], sent'[o]) ELSE chan[t]]
    /\ UNCHANGED <<pvars, since, edits, made>>
Arrive(h) ==
    /\ chan[pair[h][1]] # <<>>
    /\ chan' = [chan EXCEPT ![pair[h][1]] = Tail(@)]
    /\ got' = [f \in DOMAIN got |-> IF f \in real /\ ~Local(f) /\ Hop(f) = h THEN Append(got[f], Head(chan[pair[h][1]])) ELSE got[f]]
    /\ UNCHANGED <<pvars, sent, since, edits, made>>
Next == Edit \/ DoCommit \/ DoRefuse \/ (\E o \in Outs : Send(o)) \/ (\E h \in DOMAIN pair : Arrive(h))
Spec == Init /\ [][Next]_vars

E == Edges(real, pair)
Blocks == Outs \cup Ins
\* within a process, or a network block and a port
Within == \A e \in E : e[1] \in Blocks /\ e[2] \in Blocks => e \in real /\ Local(e)
OneWay == \A o \in Outs, i \in Ins :
            LET n == Cardinality({h \in DOMAIN pair : <<o, pair[h][1]>> \in E /\ <<pair[h][2], i>> \in E}) + (IF <<o, i>> \in E THEN 1 ELSE 0)
            IN n = IF <<o, i>> \in real THEN 1 ELSE 0
\* no more pairs than processes an output sends to
Economy == \A o \in Outs : Cardinality({h \in DOMAIN pair : h[1] = o}) = Cardinality({proc[f[2]] : f \in {g \in real : g[1] = o}} \ {proc[o]})
Rising(s) == \A k \in 1..Len(s) - 1 : s[k] < s[k + 1]
InOrder == \A f \in DOMAIN got : Rising(got[f])
\* what was sent since the connection was made has arrived or is under way
Lossless == \A f \in real :
    LET way == IF Local(f) THEN <<>> ELSE chan[pair[Hop(f)][1]]
        has == {got[f][k] : k \in 1..Len(got[f])} \cup {way[k] : k \in 1..Len(way)}
    IN (since[f] + 1)..sent[f[1]] \subseteq has
=============================================================================
