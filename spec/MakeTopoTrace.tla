---------------------------- MODULE MakeTopoTrace -----------------------------
EXTENDS MakeTopo, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES
    d,      \* the description
    todo,   \* steps still to come
    ok,     \* it must succeed
    uid,    \* block -> its unique id
    due,    \* deliveries still to come
    l
tvars == <<d, todo, ok, uid, due, l>>
Init == l = 0 /\ d = <<>> /\ todo = <<>> /\ ok = FALSE /\ uid = <<>> /\ due = {}
NB == Len(d.blocks)
In == NB + 1
Out == NB + 2
LikeArgs(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : Like(a[k], b[k])
Pop(r, name) == /\ todo # <<>> /\ Head(todo).e = r.e /\ Head(todo).b = r.b /\ Head(todo).name = name /\ LikeArgs(r.args, Head(todo).args)
                /\ todo' = Tail(todo) /\ UNCHANGED <<d, ok, uid, due>>
Conns(x) == {<<x.connections[k].srcId, x.connections[k].srcName, x.connections[k].dstId, x.connections[k].dstName>> : k \in DOMAIN x.connections}
Wanted == {<<uid[e[1]], ToString(e[2]), uid[e[3]], ToString(e[4])>> : e \in Edges(d, In, Out)}
Names(x, top) == \A b \in DOMAIN uid : uid[b] \in DOMAIN x.blocks /\ x.blocks[uid[b]].name = IF b > NB THEN "/vf/zero" ELSE top \o d.blocks[b].id
Same_ == UNCHANGED <<d, todo, ok, uid, due>>
Step(r) ==
    CASE r.e = "run" -> d' = <<>> /\ todo' = <<>> /\ ok' = FALSE /\ uid' = <<>> /\ due' = {}
      [] r.e = "make" -> LET p == Plan(r.x) IN d' = r.x /\ todo' = p.steps /\ ok' = p.ok /\ uid' = <<>> /\ due' = {}
      [] r.e = "ctor" -> Pop(r, r.path)
      [] r.e = "did" -> Pop(r, r.name)
      [] r.e = "built" -> /\ todo = <<>> /\ r.ok = ok
                          /\ todo' = IF ok THEN <<Step_("ctor", In, "/vf/zero", <<>>), Step_("ctor", Out, "/vf/zero", <<>>)>> ELSE <<>>
                          /\ UNCHANGED <<d, ok, uid, due>>
      [] r.e = "ports" -> Range(r.ins) = {ToString(x) : x \in Ins(d)} /\ Range(r.outs) = {ToString(x) : x \in Outs(d)} /\ Same_
      [] r.e = "block" -> /\ todo = <<>> /\ r.b \in Used(d) \cup {In, Out} /\ r.b \notin DOMAIN uid
                          /\ r.name = IF r.b > NB THEN "/vf/zero" ELSE d.blocks[r.b].id
                          /\ uid' = [b \in DOMAIN uid \cup {r.b} |-> IF b = r.b THEN r.uid ELSE uid[b]]
                          /\ UNCHANGED <<d, todo, ok, due>>
      [] r.e = "dump" -> /\ DOMAIN uid = Used(d) \cup {In, Out}
                         /\ Conns(r.rendered) = Wanted /\ Len(r.rendered.connections) = Cardinality(Wanted)
                         /\ Conns(r.flat) = Wanted /\ Len(r.flat.connections) = Cardinality(Wanted)
                         /\ Names(r.rendered, r.top) /\ Names(r.flat, r.top)
                         /\ Same_
      [] r.e = "fire" -> /\ due = {} /\ due' = {<<e[3], e[4], r.b, r.sig>> : e \in {x \in Edges(d, In, Out) : x[1] = r.b /\ x[2] = r.sig}}
                         /\ UNCHANGED <<d, todo, ok, uid>>
      [] r.e = "got" -> <<r.b, r.slot, r.from, r.sig>> \in due /\ due' = due \ {<<r.b, r.slot, r.from, r.sig>>} /\ UNCHANGED <<d, todo, ok, uid>>
      [] r.e = "quiet" -> due = {} /\ Same_
      [] r.e = "left" -> r.live = 0 /\ todo = <<>> /\ Same_
      [] r.e = "end" -> Same_
      [] OTHER -> FALSE
Next == l < Len(Trace) /\ Step(Trace[l + 1]) /\ l' = l + 1
Spec == Init /\ [][Next]_tvars
Accepted ==
    LET k == TLCGet("stats").diameter - 1
    IN IF k = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", k + 1, Trace[k + 1].e>>) /\ FALSE
=============================================================================
