------------------------------- MODULE Registry -------------------------------
(* The plugin registry: a tree of names with an object at some of its nodes.
   Every operation takes effect at one moment between its call and its return;
   what an add or a remove owes to event handlers is done step by step after that.

   plug   path (sequence of names) -> [o |-> what the object is, h |-> handler id or 0]
   ord    path -> names below it in the order they were first added
   th     thread -> the operation under way
            todo   what is still owed to handlers: notifications ("ev"), and the looks at
                   the tree ("snap": the handlers above; "list"/"get": what a new handler missed) *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt
VARIABLES plug, ord, th
rvars == <<plug, ord, th>>

None == [op |-> "none"]
Idle(t) == IF t \in DOMAIN th THEN th[t].op = "none" ELSE TRUE
Ord(p) == IF p \in DOMAIN ord THEN ord[p] ELSE <<>>
Below(p) == {q \in DOMAIN plug : Len(q) >= Len(p) /\ SubSeq(q, 1, Len(p)) = p}
Names(p) == SelectSeq(Ord(p), LAMBDA n : Below(Append(p, n)) # {})
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

(* the names on the way to p become known, in order *)
Known(p) ==
    LET on == {SubSeq(p, 1, k) : k \in 0..(Len(p) - 1)} IN
    [q \in DOMAIN ord \cup on |->
        IF q \in on /\ ~Contains(Ord(q), p[Len(q) + 1]) THEN Append(Ord(q), p[Len(q) + 1]) ELSE Ord(q)]

(* notifications for the handlers above p, nearest first *)
RECURSIVE Above(_, _, _, _)
Above(p, k, o, ev) ==
    IF k < 0 THEN <<>> ELSE
    LET q == SubSeq(p, 1, k)
        one == IF q \in DOMAIN plug /\ plug[q].h # 0 THEN <<[k |-> "ev", h |-> plug[q].h, p |-> p, o |-> o, ev |-> ev]>> ELSE <<>>
    IN one \o Above(p, k - 1, o, ev)

(* the whole tree in the order dump shows it *)
RECURSIVE Pre(_), PreAll(_, _)
Pre(p) == (IF p \in DOMAIN plug THEN << <<p, plug[p].o>> >> ELSE <<>>) \o PreAll(p, Ord(p))
PreAll(p, ns) == IF ns = <<>> THEN <<>> ELSE Pre(Append(p, Head(ns))) \o PreAll(p, Tail(ns))

Call(t, op, p, o, h) ==
    /\ Idle(t)
    /\ th' = Put(th, t, [op |-> op, p |-> p, o |-> o, h |-> h, lin |-> FALSE, todo |-> <<>>, res |-> <<>>])
    /\ UNCHANGED <<plug, ord>>

(* the moment at which the operation of t takes effect *)
Lin(t) ==
    LET c == th[t]
        Done(res, todo) == th' = [th EXCEPT ![t].lin = TRUE, ![t].res = res, ![t].todo = todo]
    IN
    /\ ~Idle(t) /\ ~c.lin
    /\ CASE c.op = "add" ->
              IF c.p \in DOMAIN plug THEN Done([ok |-> FALSE], <<>>) /\ UNCHANGED <<plug, ord>>
              ELSE /\ plug' = Put(plug, c.p, [o |-> c.o, h |-> c.h])
                   /\ ord' = Known(c.p)
                   /\ Done([ok |-> TRUE], <<[k |-> "snap", p |-> c.p, o |-> c.o, ev |-> "add"]>>
                                          \o (IF c.h # 0 THEN <<[k |-> "list", p |-> c.p, h |-> c.h]>> ELSE <<>>))
         [] c.op = "remove" ->
              IF c.p \notin DOMAIN plug THEN Done([ok |-> FALSE, o |-> 0], <<>>) /\ UNCHANGED <<plug, ord>>
              ELSE /\ plug' = Del(plug, c.p)
                   /\ UNCHANGED ord
                   /\ Done([ok |-> TRUE, o |-> plug[c.p].o], <<[k |-> "snap", p |-> c.p, o |-> plug[c.p].o, ev |-> "remove"]>>)
         [] c.op = "get" -> Done(IF c.p \in DOMAIN plug THEN [ok |-> TRUE, o |-> plug[c.p].o] ELSE [ok |-> FALSE, o |-> 0], <<>>) /\ UNCHANGED <<plug, ord>>
         [] c.op = "empty" -> Done([ok |-> c.p \notin DOMAIN plug], <<>>) /\ UNCHANGED <<plug, ord>>
         [] c.op = "exists" -> Done([ok |-> Below(c.p) # {}], <<>>) /\ UNCHANGED <<plug, ord>>
         [] c.op = "list" -> Done([v |-> Names(c.p)], <<>>) /\ UNCHANGED <<plug, ord>>
         [] c.op = "dump" -> Done([v |-> Pre(<<>>)], <<>>) /\ UNCHANGED <<plug, ord>>

Looks(s) == {k \in DOMAIN s : s[k].k # "ev"}
FirstLook(s) == CHOOSE k \in Looks(s) : \A j \in Looks(s) : k <= j

(* the next look at the tree that the thread owes *)
Look(t) ==
    /\ ~Idle(t) /\ th[t].lin /\ Looks(th[t].todo) # {}
    /\ LET s == th[t].todo
           k == FirstLook(s)
           x == s[k]
           new == CASE x.k = "snap" -> Above(x.p, Len(x.p) - 1, x.o, x.ev)
                    [] x.k = "get" -> IF x.p \in DOMAIN plug THEN <<[k |-> "ev", h |-> x.h, p |-> x.p, o |-> plug[x.p].o, ev |-> "add"]>> ELSE <<>>
                    [] x.k = "list" -> FlattenSeq([i \in 1..Len(Names(x.p)) |->
                                          LET q == Append(x.p, Names(x.p)[i]) IN <<[k |-> "get", p |-> q, h |-> x.h], [k |-> "list", p |-> q, h |-> x.h]>>])
       IN th' = [th EXCEPT ![t].todo = SubSeq(s, 1, k - 1) \o new \o SubSeq(s, k + 1, Len(s))]
    /\ UNCHANGED <<plug, ord>>

(* a handler is told *)
Told(t, h, p, o, ev) ==
    /\ ~Idle(t) /\ th[t].todo # <<>>
    /\ Head(th[t].todo) = [k |-> "ev", h |-> h, p |-> p, o |-> o, ev |-> ev]
    /\ th' = [th EXCEPT ![t].todo = Tail(@)]
    /\ UNCHANGED <<plug, ord>>

Return(t) ==
    /\ ~Idle(t) /\ th[t].lin /\ th[t].todo = <<>>
    /\ th' = [th EXCEPT ![t] = None]
    /\ UNCHANGED <<plug, ord>>

(* ---- names of paths ---- *)
Letters == {"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z",
            "a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z",
            "0","1","2","3","4","5","6","7","8","9","_","-"}
ValidPath(s) ==
    \/ s = <<"/">>
    \/ /\ s # <<>> /\ s[1] = "/" /\ s[Len(s)] # "/"
       /\ \A k \in DOMAIN s : s[k] \in Letters \cup {"/"}
       /\ \A k \in 1..(Len(s) - 1) : ~(s[k] = "/" /\ s[k + 1] = "/")
(* the characters of the path are the names, each after a slash *)
Spells(s, nodes) == IF nodes = <<>> THEN s = <<"/">> ELSE Cardinality({k \in DOMAIN s : s[k] = "/"}) = Len(nodes)

TypeOK == \A p \in DOMAIN plug : \A k \in 0..(Len(p) - 1) : Contains(Ord(SubSeq(p, 1, k)), p[k + 1])
===============================================================================
