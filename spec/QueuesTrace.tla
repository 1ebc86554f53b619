----------------------------- MODULE QueuesTrace ------------------------------
EXTENDS Queues, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<qvars, l>>
NoQ == [cap |-> 1, next |-> 0, in |-> {}, ready |-> <<>>]
Init == l = 0 /\ ring = <<>> /\ oq = NoQ
Skip == UNCHANGED qvars
Look(r) ==
    LET s == ring[r.d] IN
    /\ r.v = s.v /\ r.size = Len(s.v) /\ r.cap = s.cap /\ (r.empty <=> s.v = <<>>) /\ (r.full <=> Len(s.v) = s.cap)
    /\ s.v # <<>> => r.f = Head(s.v) /\ r.b = s.v[Len(s.v)]
    /\ ~r.bad /\ r.live = Held
Step(r) ==
    CASE r.e = "run" -> ring' = <<>> /\ oq' = NoQ
      [] r.e = "new" -> New(r.d, r.cap)
      [] r.e = "pushb" -> PushB(r.d, r.v)
      [] r.e = "pushf" -> PushF(r.d, r.v)
      [] r.e = "popf" -> PopF(r.d)
      [] r.e = "popb" -> PopB(r.d)
      [] r.e = "setcap" -> SetCap(r.d, r.n)
      [] r.e = "clear" -> Clear(r.d)
      [] r.e = "copy" -> Copy(r.d, r.o)
      [] r.e = "move" -> Move(r.d, r.o)
      [] r.e = "look" -> Look(r) /\ Skip
      [] r.e = "none" -> r.live = 0 /\ ~r.bad /\ Skip
      [] r.e = "oq" -> r.shows = r.cap /\ ONew(r.cap)
      [] r.e = "qpush" -> OPush(r.i)
      [] r.e = "qpop" -> OPop(r.v)
      [] r.e = "qempty" -> OEmpty
      [] OTHER -> FALSE
Next == l < Len(Trace) /\ Step(Trace[l + 1]) /\ l' = l + 1
Spec == Init /\ [][Next]_tvars
Accepted ==
    LET d == TLCGet("stats").diameter - 1
    IN IF d = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d + 1, Trace[d + 1].e>>) /\ FALSE
=============================================================================
