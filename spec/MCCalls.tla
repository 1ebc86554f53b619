-------------------------------- MODULE MCCalls -------------------------------
(* all histories of a few callables: making, copying, binding and unbinding in any order, and every
   call that can then be made *)
EXTENDS Calls
CONSTANTS Cs, Types, MaxArity, Positions, Nums, MaxArgs, MaxOps
VARIABLES n, was
mvars == <<cvars, n, was>>
Tuples(S, k) == UNION {[1..m -> S] : m \in 0..k}
Vals == {<<t, k>> : t \in Types \ {"o"}, k \in Nums}
Init == cs = [c \in Cs |-> None] /\ pend = <<>> /\ n = 0 /\ was = <<>>
Next == /\ n < MaxOps /\ n' = n + 1
        /\ \/ \E c \in Cs, sig \in Tuples(Types, MaxArity) : Make(c, Len(sig), sig, 0) /\ was' = <<>>
           \/ \E c, d \in Cs : c # d /\ Copy(c, d) /\ was' = <<"copy", c, d, cs>>
           \/ \E c \in Cs, p \in Positions, v \in Vals : Bind(c, p, v) /\ was' = <<"bind", c, p, cs>>
           \/ \E c \in Cs, p \in Positions : Unbind(c, p) /\ was' = <<"unbind", c, p, cs>>
Spec == Init /\ [][Next]_mvars
\* changing one callable never shows in another (not even in the one it was copied from), and binding costs
\* exactly the argument that it fixes
Apart == was # <<>> => \A c \in Cs \ {was[2]} : cs[c] = was[4][c]
OneLess == was # <<>> /\ was[1] = "bind" /\ was[3] < Arity(was[2]) =>
             LET c == was[2] IN NumArgs(c) = Cardinality({p \in 0..(Arity(c) - 1) : p \notin DOMAIN was[4][c].bound} \ {was[3]})
\* whatever is called, the function sees its own types, the bound values where they were bound and the
\* arguments, in order, elsewhere; what is given beyond that does not matter
Proper == \A c \in Cs : cs[c].f # -1 => \A args \in Tuples(Vals, MaxArgs) :
            IF ~Accepted_(c, args)
            THEN Len(args) < NumArgs(c) \/ \E p \in 1..Arity(c) : ~Fits(Given(c, args)[p][1], cs[c].sig[p])
            ELSE LET s == Seen(c, args)
                 IN /\ \A p \in 1..Arity(c) : cs[c].sig[p] # "o" => s[p][1] = cs[c].sig[p]
                    /\ \A p \in Bound(c) : s[p + 1][2] = cs[c].bound[p][2]
                    /\ \A k \in 1..NumArgs(c) : s[Open(c)[k] + 1][2] = args[k][2]
                    /\ s = Seen(c, SubSeq(args, 1, NumArgs(c)))
===============================================================================
