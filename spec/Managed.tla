------------------------------- MODULE Managed --------------------------------
(* Classes registered at run time and called through proxies. For each world w:
   reg    class -> its registration
            [path, m, sm: sequences of [name, f, sig], ct: sequence of signatures,
             op, sop: sets of names, wild, swild, opctor, bases]
   inst   handle -> [cls, how, id, x]
   pend   the call being made, with what must come of it *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES reg, inst, pend
gvars == <<reg, inst, pend>>

Range(s) == {s[k] : k \in DOMAIN s}
Put(f, k, v) == [y \in DOMAIN f \cup {k} |-> IF y = k THEN v ELSE f[y]]
Del(f, k) == [y \in DOMAIN f \ {k} |-> f[y]]

\* a constructor with one parameter is also a conversion, while its class is registered
Direct(w) == {<<"i", "d">>, <<"d", "i">>} \cup UNION {{<<c[1], k>> : c \in {s \in Range(reg[w][k].ct) : Len(s) = 1}} : k \in DOMAIN reg[w]}
Fits(w, s, t) == LET D == Direct(w) IN t = "o" \/ s = t \/ <<s, t>> \in D \/ \E d \in D : d[1] = s /\ <<d[2], t>> \in D
As(v, t) == IF t = "o" THEN v ELSE <<t, v[2]>>
Takes(w, sig, args) == Len(sig) = Len(args) /\ \A p \in 1..Len(sig) : Fits(w, args[p][1], sig[p])
Seen(sig, args) == [p \in 1..Len(sig) |-> As(args[p], sig[p])]

\* the last one registered under the name that takes the arguments; 0: none
Pick(w, list, name, args) == LET K == {k \in 1..Len(list) : list[k].name = name /\ Takes(w, list[k].sig, args)}
                             IN IF K = {} THEN 0 ELSE CHOOSE k \in K : \A j \in K : j <= k
PickCt(w, ct, args) == LET K == {k \in 1..Len(ct) : Takes(w, ct[k], args)}
                       IN IF K = {} THEN 0 ELSE CHOOSE k \in K : \A j \in K : j <= k

Fail == [kind |-> "err", f |-> 0, cls |-> "", args |-> <<>>]
Go(kind, f, cls, args) == [kind |-> kind, f |-> f, cls |-> cls, args |-> args]

\* a method: the class itself, else what a base class makes of it; with a handler
\* for any name the base classes come first
RECURSIVE Method(_, _, _, _), FirstBase(_, _, _, _)
Method(w, cls, name, args) ==
    IF cls \notin DOMAIN reg[w] THEN Fail
    ELSE LET g == reg[w][cls]
             k == Pick(w, g.m, name, args)
             own == IF k # 0 THEN Go("m", g.m[k].f, cls, Seen(g.m[k].sig, args))
                    ELSE IF name \in g.op THEN Go("op", 0, cls, args)
                    ELSE IF g.wild THEN Go("wild", 0, cls, args) ELSE Fail
             below == FirstBase(w, g.bases, name, args)
         IN IF (own = Fail \/ g.wild) /\ below # Fail THEN below ELSE own
FirstBase(w, bases, name, args) ==
    IF bases = <<>> THEN Fail
    ELSE LET b == Method(w, Head(bases), name, args) IN IF b # Fail THEN b ELSE FirstBase(w, Tail(bases), name, args)
Static(w, cls, name, args) ==
    IF cls \notin DOMAIN reg[w] THEN Fail
    ELSE LET g == reg[w][cls]
             k == Pick(w, g.sm, name, args)
         IN IF k # 0 THEN Go("s", g.sm[k].f, cls, Seen(g.sm[k].sig, args))
            ELSE IF name \in g.sop THEN Go("sop", 0, cls, args)
            ELSE IF g.swild THEN Go("swild", 0, cls, args) ELSE Fail
Construct(w, cls, name, args) ==
    IF cls \notin DOMAIN reg[w] THEN Fail
    ELSE LET g == reg[w][cls]
             k == PickCt(w, g.ct, args)
         IN IF k # 0 THEN Go(CASE name = "()" -> "v" [] name = "new" -> "p" [] OTHER -> "s", 0, cls, Seen(g.ct[k], args))
            ELSE IF name = "()" /\ g.opctor THEN Go("v", 1, cls, args)
            ELSE IF name # "()" /\ g.swild THEN Go("swild", 0, cls, args)
            ELSE Fail

\* registering is all or nothing
Commit(w, cls, g, ok) ==
    /\ ok <=> (\A k \in DOMAIN reg[w] : reg[w][k].path # g.path) /\ cls \notin DOMAIN reg[w]
    /\ reg' = IF ok THEN [reg EXCEPT ![w] = Put(@, cls, g)] ELSE reg
    /\ UNCHANGED <<inst, pend>>
Unload(w, cls) == cls \in DOMAIN reg[w] /\ reg' = [reg EXCEPT ![w] = Del(@, cls)] /\ UNCHANGED <<inst, pend>>

IsMaker(name) == name \in {"()", "new", "shared"}
CallIt(w, h, cls, name, args) ==
    /\ pend[w] = <<>>
    /\ h # 0 => h \in DOMAIN inst[w]
    /\ pend' = [pend EXCEPT ![w] = [h |-> h, name |-> name, args |-> args, hit |-> FALSE,
                                    go |-> IF h # 0 THEN Method(w, inst[w][h].cls, name, args)
                                           ELSE IF IsMaker(name) THEN Construct(w, cls, name, args)
                                           ELSE Static(w, cls, name, args)]]
    /\ UNCHANGED <<reg, inst>>

RECURSIVE Weigh(_, _)
Weigh(v, k) == IF k > Len(v) THEN 0 ELSE k * v[k][2] + Weigh(v, k + 1)
RECURSIVE Total(_, _)
Total(v, k) == IF k > Len(v) THEN 0 ELSE v[k][2] + Total(v, k + 1)

Self(w) == IF pend[w].h = 0 THEN 0 ELSE inst[w][pend[w].h].id
\* fields are read and written without any function of the user's
IsField(go) == go.kind = "m" /\ go.f \in {200, 201}
IsNew(w) == pend[w].h = 0 /\ pend[w].go.kind \in {"v", "p", "s"} /\ IsMaker(pend[w].name)
Enters(w) == pend[w].go.kind \in {"m", "s", "op", "sop", "wild", "swild"} /\ ~IsField(pend[w].go) /\ ~IsNew(w)
Hit(w, kind, f, self, name, args) ==
    /\ pend[w] # <<>> /\ ~pend[w].hit /\ Enters(w)
    /\ LET go == pend[w].go
       IN kind = go.kind /\ f = go.f /\ args = go.args /\ self = Self(w) /\ (kind \in {"wild", "swild"} => name = pend[w].name)
    /\ pend' = [pend EXCEPT ![w].hit = TRUE]
    /\ UNCHANGED <<reg, inst>>
Ret(w, kind, res, cls, how, h) ==
    /\ pend[w] # <<>>
    /\ pend' = [pend EXCEPT ![w] = <<>>]
    /\ UNCHANGED reg
    /\ LET go == pend[w].go
           t == Total(go.args, 1)
       IN CASE go = Fail -> kind = "err" /\ ~pend[w].hit /\ UNCHANGED inst
            [] IsNew(w) -> /\ kind = "made" /\ cls = go.cls /\ how = go.kind /\ h \notin DOMAIN inst[w]
                           /\ res = IF go.f = 1 THEN Len(go.args) ELSE t
                           /\ inst' = [inst EXCEPT ![w] = Put(@, h, [cls |-> cls, how |-> how, id |-> res, x |-> 0])]
            [] go # Fail /\ IsField(go) -> /\ kind = "ok"
                                           /\ IF go.f = 200 THEN res = inst[w][pend[w].h].x /\ UNCHANGED inst
                                              ELSE inst' = [inst EXCEPT ![w][pend[w].h].x = go.args[1][2]]
            [] OTHER -> /\ pend[w].hit /\ UNCHANGED inst
                        /\ IF Len(go.args) > 0 /\ t % 7 = 0 THEN kind = "msg" /\ res = t
                           ELSE kind = "ok" /\ res = Weigh(go.args, 1) + Self(w)
Forget(w, h) == inst' = [inst EXCEPT ![w] = Del(@, h)] /\ UNCHANGED <<reg, pend>>
===============================================================================
