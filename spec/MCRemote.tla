------------------------------- MODULE MCRemote -------------------------------
(* Two client threads, two connections; any order of requests, executions, breaks and drops. *)
EXTENDS Remote
CONSTANTS Thr, Conns, MaxN
VARIABLES cnt, srv
allv == <<rvars, cnt, srv>>
Init == InitR /\ cnt = 0 /\ srv = {}
S(t) == {10 * t, 10 * t + 1}
Id(t, n) == 100 * t + n
Ask(t) == /\ cnt < MaxN /\ t \notin DOMAIN pend /\ cnt' = cnt + 1 /\ UNCHANGED srv
          /\ \E c \in Conns \ bye :
             \/ \E s \in S(t) : s \notin DOMAIN slot /\ Call(t, cnt + 1, c, "make", 0, 0, s, Id(t, cnt + 1))
             \/ \E s \in S(t) \cap DOMAIN slot : home[slot[s]] = c /\
                \/ Call(t, cnt + 1, c, "add", slot[s], 0, 1, 0)
                \/ Call(t, cnt + 1, c, "fail", slot[s], 0, 0, 0)
                \/ \E o \in S(t) \cap DOMAIN slot : Call(t, cnt + 1, c, "see", slot[s], slot[o], 0, 0)
                \/ \E o \in S(t) \ DOMAIN slot : Call(t, cnt + 1, c, "child", slot[s], 0, o, Id(t, cnt + 1))
(* the handler executes what reached it, once *)
Handle(n) == /\ n \notin srv /\ n \in DOMAIN req /\ UNCHANGED cnt
             /\ LET r == req[n] IN
                CASE r.op = "make" -> Made(n, r.want) /\ srv' = srv \cup {n}
                  [] r.op = "child" -> IF r.done THEN Made(n, r.want) /\ srv' = srv \cup {n} ELSE Did(n, r.id, r.op, r.want, 0) /\ UNCHANGED srv
                  [] OTHER -> Did(n, r.id, r.op, IF r.op = "see" THEN r.other ELSE r.arg, Outcome(r)) /\ srv' = srv \cup {n}
Answer(t) == /\ t \in DOMAIN pend /\ UNCHANGED <<cnt, srv>>
             /\ LET n == pend[t] r == req[n] IN
                \/ Ret(t, n, "ok", IF r.op \in {"make", "child"} THEN r.want ELSE r.res, TRUE, r.arg)
                \/ Ret(t, n, "msg", 0, TRUE, 0)
                \/ Ret(t, n, "io", 0, TRUE, 0)
Next == \/ \E t \in Thr : Ask(t) \/ Answer(t)
        \/ \E n \in DOMAIN req : Handle(n)
        \/ (\E s \in DOMAIN slot : Drop(s) /\ (\E t \in Thr : s \in S(t) /\ t \notin DOMAIN pend)) /\ UNCHANGED <<cnt, srv>>
        \/ (\E id \in DOMAIN val \ dead : Died(id)) /\ UNCHANGED <<cnt, srv>>
        \/ (\E c \in Conns \ lost : Lost(c)) /\ UNCHANGED <<cnt, srv>>
Spec == Init /\ [][Next]_allv
(* nobody is answered before the request was executed, unless the connection broke *)
Executed == \A n \in DOMAIN req : n \in Active \/ req[n].done \/ req[n].made \/ req[n].c \in lost
(* a reference held by a client is to an object that exists *)
Refers == \A s \in DOMAIN slot : slot[s] \in DOMAIN val \ dead
Counts == \A id \in DOMAIN val : val[id] = Cardinality({n \in DOMAIN req : req[n].op = "add" /\ req[n].id = id /\ req[n].done})
===============================================================================
