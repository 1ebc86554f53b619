-------------------------------- MODULE Remote --------------------------------
(* Remote proxies: requests of client threads, executed by the handler at the other end of a
   connection, and the objects that live there.
   req   request number -> what was asked, of which object, and whether it was executed
   pend  thread -> its request
   slot  client reference -> the remote object
   val   remote object -> its contents;  home  remote object -> its connection;  dead  destroyed objects *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES req, pend, slot, val, home, dead, lost, bye, over
rvars == <<req, pend, slot, val, home, dead, lost, bye, over>>

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
At(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
Slot(s) == At(slot, s, 0)
Ops == {"make", "child", "add", "see", "echo", "fail", "many", "wrong", "plain"}
Active == {pend[t] : t \in DOMAIN pend}
(* what a client refers to, or is asking about at this moment *)
Held(id) == \/ \E s \in DOMAIN slot : slot[s] = id
            \/ \E n \in Active : id \in {req[n].id, req[n].other} \/ (req[n].made /\ req[n].want = id)

InitR == req = <<>> /\ pend = <<>> /\ slot = <<>> /\ val = <<>> /\ home = <<>> /\ dead = {} /\ lost = {} /\ bye = {} /\ over = {}

Call(t, n, c, op, id, other, arg, want) ==
    /\ t \notin DOMAIN pend /\ n \notin DOMAIN req /\ c \notin bye /\ op \in Ops
    /\ id \notin dead /\ other \notin dead
    /\ req' = Put(req, n, [c |-> c, op |-> op, id |-> id, other |-> other, arg |-> arg, want |-> want, done |-> FALSE, made |-> FALSE, res |-> 0])
    /\ pend' = Put(pend, t, n)
    /\ UNCHANGED <<slot, val, home, dead, lost, bye, over>>

(* the other end may execute a request that nobody waits for any more only when the connection broke *)
Runs(n) == n \in DOMAIN req /\ (n \in Active \/ req[n].c \in lost)
Made(n, id) ==
    /\ Runs(n) /\ req[n].op \in {"make", "child"} /\ ~req[n].made /\ req[n].want = id /\ id \notin DOMAIN val
    /\ req[n].op = "child" => req[n].done
    /\ req' = [req EXCEPT ![n].made = TRUE]
    /\ val' = Put(val, id, 0) /\ home' = Put(home, id, req[n].c)
    /\ UNCHANGED <<pend, slot, dead, lost, bye, over>>
Outcome(r) == CASE r.op = "add" -> val[r.id] + r.arg [] r.op = "see" -> val[r.other] [] OTHER -> 0
Did(n, id, op, arg, res) ==
    /\ Runs(n)
    /\ LET r == req[n] IN
        /\ r.op = op /\ ~r.done /\ r.id = id /\ op # "make"
        /\ op = "add" => arg = r.arg
        /\ op = "see" => arg = r.other
        /\ op = "child" => arg = r.want
        /\ op # "many" => res = Outcome(r)
        /\ val' = IF op = "add" THEN [val EXCEPT ![id] = res] ELSE val
        /\ req' = [req EXCEPT ![n].done = TRUE, ![n].res = res]
    /\ UNCHANGED <<pend, slot, home, dead, lost, bye, over>>
(* kind: ok, msg (the method threw), err, io; into: the reference that takes a result *)
Ret(t, n, kind, res, good, into) ==
    /\ t \in DOMAIN pend /\ pend[t] = n
    /\ LET r == req[n] IN
        /\ kind = "ok" => /\ good /\ r.op \notin {"fail", "wrong"}
                          /\ r.op \in {"make", "child"} => r.made /\ res = r.want
                          /\ r.op \in {"add", "see", "many", "echo"} => r.done /\ res = r.res
        /\ kind = "msg" => good /\ r.op = "fail" /\ r.done
        /\ kind = "err" => r.op = "wrong" \/ r.c \in lost
        /\ kind = "io" => r.c \in lost
        /\ slot' = IF kind = "ok" /\ r.op \in {"make", "child"} THEN Put(slot, into, r.want) ELSE slot
    /\ pend' = Del(pend, t)
    /\ UNCHANGED <<req, val, home, dead, lost, bye, over>>
Dup(s, o) == Slot(s) # 0 /\ slot' = Put(slot, o, slot[s]) /\ UNCHANGED <<req, pend, val, home, dead, lost, bye, over>>
Drop(s) == s \in DOMAIN slot /\ slot' = Del(slot, s) /\ UNCHANGED <<req, pend, val, home, dead, lost, bye, over>>
(* the object goes when nothing refers to it, and is gone when the last reference is *)
Died(id) == id \in DOMAIN val \ dead /\ ~Held(id) /\ dead' = dead \cup {id} /\ UNCHANGED <<req, pend, slot, val, home, lost, bye, over>>
Clean == \A id \in DOMAIN val : id \in dead \/ Held(id) \/ home[id] \in lost
Lost(c) == lost' = lost \cup {c} /\ UNCHANGED <<req, pend, slot, val, home, dead, bye, over>>
Bye(c) == bye' = bye \cup {c} /\ UNCHANGED <<req, pend, slot, val, home, dead, lost, over>>
Over(c, threw) == (threw => c \in lost) /\ (c \in bye \/ c \in lost) /\ c \notin over /\ over' = over \cup {c}
                  /\ UNCHANGED <<req, pend, slot, val, home, dead, lost, bye>>

NoDangling == \A s \in DOMAIN slot : slot[s] \notin dead
===============================================================================
