---------------------------- MODULE RegistryTrace -----------------------------
EXTENDS Registry, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<rvars, l>>
Zero == plug = <<>> /\ ord = <<>> /\ th = <<>>
Init == l = 0 /\ Zero /\ TLCSet(1, 0)
Skip == UNCHANGED rvars
Ret(r) ==
    /\ ~Idle(r.t) /\ th[r.t].lin
    /\ LET c == th[r.t] IN
       CASE c.op \in {"add", "empty", "exists"} -> r.ok = c.res.ok
         [] c.op \in {"get", "remove"} -> r.ok = c.res.ok /\ r.o = c.res.o /\ r.same
         [] c.op \in {"list", "dump"} -> r.v = c.res.v
    /\ Return(r.t)
Step(r) ==
    CASE r.e = "run" -> plug' = <<>> /\ ord' = <<>> /\ th' = <<>>
      [] r.e = "path" -> (r.ok <=> ValidPath(r.s)) /\ (r.ok => Spells(r.s, r.nodes) /\ r.same) /\ Skip
      [] r.e = "joined" -> r.nodes = r.a \o r.b /\ (r.eq <=> r.b = <<>>) /\ Skip
      [] r.e = "call" -> Call(r.t, r.op, r.p, r.o, r.h)
      [] r.e = "hev" -> Told(r.t, r.h, r.p, r.o, r.ev)
      [] r.e = "ret" -> Ret(r)
      [] r.e = "end" -> (\A t \in DOMAIN th : Idle(t)) /\ Skip
      [] OTHER -> FALSE
Inner == l < Len(Trace) /\ Trace[l + 1].e \in {"ret", "hev"} /\ \E t \in DOMAIN th : (Lin(t) \/ Look(t)) /\ UNCHANGED l
Next == \/ l < Len(Trace) /\ Step(Trace[l + 1]) /\ l' = l + 1 /\ (IF l' > TLCGet(1) THEN TLCSet(1, l') ELSE TRUE)
        \/ Inner
Spec == Init /\ [][Next]_tvars
Accepted ==
    LET d == TLCGet(1)
    IN IF d = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d + 1, Trace[d + 1].e>>) /\ FALSE
=============================================================================
