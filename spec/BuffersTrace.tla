----------------------------- MODULE BuffersTrace -----------------------------
EXTENDS Buffers, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, had
tvars == <<bvars, l, had>>
Init == l = 0 /\ had = 0 /\ kind = "" /\ nb = 1 /\ bs = 1 /\ cur = 0 /\ base = 0 /\ used = 0 /\ moved = FALSE /\ held = <<>> /\ leaving = {} /\ acc = <<>>
Skip == UNCHANGED bvars

Step(r) ==
    CASE r.e = "run" -> BReset(r.kind, r.n, r.b)
      [] r.e = "alias" -> r.ok /\ Skip
      [] r.e = "front" -> IF r.empty THEN FrontEmpty ELSE FrontStay(r.off, r.len) \/ FrontNext(r.off, r.len)
      [] r.e = "take" -> Take(r.id, r.off, r.n)
      [] r.e = "dup" -> Dup(r.id, r.from)
      [] r.e = "cut" -> Cut(r.id, r.n)
      [] r.e = "gather" -> Gather(r.id, r.parts, r.off, r.n, r.whole)
      [] r.e = "assign" -> r.same /\ Assign(r.to, r.from, r.move)
      [] r.e = "same" -> r.same /\ Skip
      [] r.e = "late" -> r.same /\ Skip
      [] r.e = "drop" -> r.same /\ DropRef(r.id, r.later)
      [] r.e = "quiet" -> Quiet
      [] r.e = "apush" -> APush(r.a, r.id, r.kept, r.v)
      [] r.e = "afront" -> AFront(r.a, r.v, r.tot, r.empty)
      [] r.e = "areq" -> ARequire(r.a, r.n)
      [] r.e = "apop" -> APop(r.a, r.n)
      [] r.e = "aclear" -> AClear(r.a)
      [] r.e = "akeep" -> AKeep(r.a, r.id, r.n)
      [] r.e = "full" -> Full(r.held) /\ Skip
      [] r.e = "end" -> Skip
      [] OTHER -> FALSE

Next == l < Len(Trace) /\ Step(Trace[l + 1]) /\ l' = l + 1 /\ UNCHANGED had
Spec == Init /\ [][Next]_tvars
Accepted ==
    LET d == TLCGet("stats").diameter - 1
    IN IF d = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d + 1, Trace[d + 1].e>>) /\ FALSE
=============================================================================
