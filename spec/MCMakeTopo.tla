------------------------------ MODULE MCMakeTopo ------------------------------
(* every small description of two blocks *)
EXTENDS MakeTopo
CONSTANT MaxConns
VARIABLES g, ids, loc, arg, good, conns
vars == <<g, ids, loc, arg, good, conns>>
Num(n) == [k |-> "lit", v |-> N(n)]
Nm(s) == [k |-> "name", v |-> s]
\* expressions are numbered: 1, 2: numbers; 3, 4: names
X(i) == CASE i = 1 -> Num(1) [] i = 2 -> Num(2) [] i = 3 -> Nm("a") [] OTHER -> Nm("b")
Vars(s) == [k \in DOMAIN s |-> <<s[k][1], X(s[k][2])>>]
Bindings == {<<>>} \cup {<<<<n, i>>>> : n \in {"a", "b"}, i \in 1..4}
Pairs == {<<p, q>> : p \in {<<"a", 1>>}, q \in {<<"b", 3>>, <<"a", 2>>, <<"a", 3>>}}
Block(k) == [id |-> ids[k], path |-> "p", locals |-> Vars(loc[k]), args |-> <<X(arg[k])>>, calls |-> <<[name |-> "c", args |-> <<X(3)>>, good |-> good # 4]>>, good |-> good # k, pool |-> good # 5, whole |-> TRUE]
Desc == [text |-> TRUE, globals |-> Vars(g), blocks |-> <<Block(1), Block(2)>>,
         conns |-> [k \in DOMAIN conns |-> [src |-> conns[k][1], sp |-> conns[k][2], dst |-> conns[k][3], dp |-> 0, good |-> good # 3]]]
Init == /\ g \in Bindings \cup Pairs /\ ids \in {<<"p", "q">>, <<"p", "p">>}
        /\ loc \in {<<u, v>> : u, v \in Bindings} /\ arg \in {<<u, v>> : u, v \in 3..4} /\ good \in 0..5 /\ conns = <<>>
Next == /\ Len(conns) < MaxConns /\ good \in {0, 3} /\ Plan(Desc).ok = (good = 0 \/ conns = <<>>) /\ arg = <<3, 3>> /\ loc = <<<<>>, <<>>>>
        /\ \E s, t \in {"", ids[1], ids[2]}, p \in 0..1 : (\A k \in DOMAIN conns : conns[k] # <<s, p, t>>) /\ conns' = Append(conns, <<s, p, t>>)
        /\ UNCHANGED <<g, ids, loc, arg, good>>
Spec == Init /\ [][Next]_vars
Whole == [Desc EXCEPT !.blocks = [k \in 1..2 |-> [@[k] EXCEPT !.good = TRUE, !.pool = TRUE, !.calls[1].good = TRUE]], !.conns = [k \in DOMAIN @ |-> [@[k] EXCEPT !.good = TRUE]]]
IsPrefix(s, t) == Len(s) <= Len(t) /\ s = SubSeq(t, 1, Len(s))
\* whatever is wrong, what is done before is what would have been done anyway
Before == IsPrefix(Plan(Desc).steps, Plan(Whole).steps) /\ (Plan(Desc).ok => Plan(Desc).steps = Plan(Whole).steps)
\* the locals of one block are not seen by another
Own(k) == {s \in Range(Plan(Desc).steps) : s.b = k}
Alone == [Desc EXCEPT !.blocks[1].locals = <<>>, !.blocks[1].args = <<>>, !.blocks[1].calls = <<>>]
Apart == Plan(Desc).ok => Own(2) = {s \in Range(Plan(Alone).steps) : s.b = 2}
\* a local takes the place of a global of the same name
Nearest == Plan(Desc).ok => \A k \in 1..2 : loc[k] # <<>> /\ loc[k][1][1] = "a" /\ loc[k][1][2] <= 2 => \A s \in Own(k) : s.e = "did" => s.args = <<N(loc[k][1][2])>>
\* nobody is connected who was not said to be, and all that are end at blocks that exist
Joined == /\ \A e \in Edges(Desc, 8, 9) : e[1] \in {1, 2, 8, 9} /\ e[3] \in {1, 2, 8, 9}
          /\ Used(Desc) = ({e[1] : e \in Edges(Desc, 8, 9)} \cup {e[3] : e \in Edges(Desc, 8, 9)}) \ {8, 9}
          /\ Cardinality(Edges(Desc, 8, 9)) = Len(conns) + 1
===============================================================================
