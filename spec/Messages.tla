------------------------------- MODULE Messages -------------------------------
(***************************************************************************)
(* Asynchronous messages, signals and slots.                               *)
(*                                                                         *)
(* Message outputs and signals post; message inputs and slots receive.     *)
(* A post goes to every connected receiver exactly once. Every receiver is *)
(* a first-in first-out queue: messages of one source never overtake each  *)
(* other, and a message whose post has returned is never overtaken by one  *)
(* posted later, whoever posts it. A source has Tokens tokens; a message   *)
(* posted while one is free holds it until its last receiver has taken the *)
(* message, and the posting block does not work while no token is free.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT Tokens

VARIABLES
    mon, msoft,  \* connections <<o,i>> in force / being changed by a commit
    mq,          \* mq[i][o]: what o posted to i and i has not taken: [x, y, opt, at]
    now,         \* counts posts
    ret,         \* ret[x] = k: the post of x had returned before the k+1st post began
    tok,         \* messages that surely hold a token
    fresh,       \* sources that surely have a free token: their block worked and has not posted since
    before,      \* messages posted before their block's last turn began
    posted,      \* number of posts per output
    taken        \* number of messages taken per input

mvars == <<mon, msoft, mq, now, ret, tok, fresh, before, posted, taken>>

MReset(ins, outs) ==
    /\ mon' = {} /\ msoft' = {} /\ now' = 0 /\ ret' = <<>> /\ tok' = {} /\ fresh' = {} /\ before' = {}
    /\ mq' = [i \in ins |-> [o \in outs |-> <<>>]]
    /\ posted' = [o \in outs |-> 0] /\ taken' = [i \in ins |-> 0]

MTopo == UNCHANGED <<mq, now, ret, tok, fresh, before, posted, taken>>
MOpening(o, i) == <<o, i>> \notin mon /\ msoft' = msoft \cup {<<o, i>>} /\ mon' = mon /\ MTopo
MClosing(o, i) == <<o, i>> \in mon /\ msoft' = msoft \cup {<<o, i>>} /\ mon' = mon /\ MTopo
MLinked(o, i) == mon' = mon \cup {<<o, i>>} /\ msoft' = msoft \ {<<o, i>>} /\ MTopo
MUnlinked(o, i) == mon' = mon \ {<<o, i>>} /\ msoft' = msoft \ {<<o, i>>} /\ MTopo

Ids(s) == {s[k].x : k \in DOMAIN s}
InBox(i) == UNION {Ids(mq[i][o]) : o \in DOMAIN mq[i]}
Sure(i) == UNION {Ids(SelectSeq(mq[i][o], LAMBDA m : ~m.opt)) : o \in DOMAIN mq[i]}
\* messages of o that some receiver may still have to take
Outstanding(o) == UNION {Ids(mq[i][o]) : i \in {j \in DOMAIN mq : o \in DOMAIN mq[j]}}

Receivers(o) == {c[2] : c \in {d \in mon : d[1] = o}}
Unsure(o) == {c[2] : c \in {d \in msoft : d[1] = o}}

Post(o, x, y) ==
    /\ mq' = [i \in DOMAIN mq |->
                IF i \in Receivers(o) \cup Unsure(o)
                THEN [mq[i] EXCEPT ![o] = Append(@, [x |-> x, y |-> y, opt |-> i \in Unsure(o), at |-> now])]
                ELSE mq[i]]
    /\ now' = now + 1 /\ ret' = ret
    /\ tok' = IF Receivers(o) # {} /\ (o \in fresh \/ Cardinality(Outstanding(o)) < Tokens) THEN tok \cup {x} ELSE tok
    /\ fresh' = fresh \ {o}
    /\ posted' = [posted EXCEPT ![o] = @ + 1]
    /\ UNCHANGED <<mon, msoft, before, taken>>

Return(xs) == [x \in DOMAIN ret \cup xs |-> IF x \in DOMAIN ret THEN ret[x] ELSE now]
Posted(x) == ret' = Return({x}) /\ UNCHANGED <<mon, msoft, mq, now, tok, fresh, before, posted, taken>>

\* positions at which o's queue towards i may continue
FrontOk(i, o, k) ==
    /\ \A j \in 1..(k - 1) : mq[i][o][j].opt
    /\ \A x \in Sure(i) : x \in DOMAIN ret => ret[x] > mq[i][o][k].at

Fronts(i, x, y) == {<<o, k>> \in UNION {{<<o, k>> : k \in DOMAIN mq[i][o]} : o \in DOMAIN mq[i]} :
                       mq[i][o][k].x = x /\ mq[i][o][k].y = y /\ FrontOk(i, o, k)}

AllIds(m) == UNION {UNION {Ids(m[i][o]) : o \in DOMAIN m[i]} : i \in DOMAIN m}

Peek(i, x, y) == Fronts(i, x, y) # {} /\ UNCHANGED mvars

Take(i, x, y) ==
    /\ \E f \in Fronts(i, x, y) :
        mq' = [mq EXCEPT ![i] = [@ EXCEPT ![f[1]] = SubSeq(@, f[2] + 1, Len(@))]]
    /\ LET left == AllIds(mq')
       IN tok' = tok \cap left /\ before' = before \cap left /\ ret' = [z \in DOMAIN ret \cap left |-> ret[z]]
    /\ taken' = [taken EXCEPT ![i] = @ + 1]
    /\ UNCHANGED <<mon, msoft, now, fresh, posted>>

\* a message certainly not taken yet by one of its receivers holds its token; the first one of a queue
\* may be on its way into the receiver
Held(o) == {x \in tok : \E i \in DOMAIN mq : o \in DOMAIN mq[i] /\ \E k \in 2..Len(mq[i][o]) : mq[i][o][k].x = x /\ ~mq[i][o][k].opt}

\* a block's turn: tokens are looked at first, then slots run (and may post), then the block works
Turn(outs) ==
    /\ before' = before \cup UNION {Outstanding(o) : o \in outs}
    \* whatever the block posted before is posted by now
    /\ ret' = Return(UNION {Outstanding(o) : o \in outs})
    /\ UNCHANGED <<mon, msoft, mq, now, tok, fresh, posted, taken>>

Work(outs) ==
    /\ \A o \in outs : Cardinality(Held(o) \cap before) < Tokens
    /\ fresh' = fresh \cup {o \in outs : Outstanding(o) \subseteq before}
    /\ UNCHANGED <<mon, msoft, mq, now, ret, tok, before, posted, taken>>

\* nothing is left behind
Drained(i) == Sure(i) = {}
==============================================================================
