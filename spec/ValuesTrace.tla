------------------------------ MODULE ValuesTrace -----------------------------
EXTENDS Values, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<cvars, l>>
Init == l = 0 /\ hops = {}
Skip == UNCHANGED cvars
Seen(r, c) == r.c = c /\ (r.eq <=> c = 0) /\ (r.lt <=> c < 0) /\ (r.gt <=> c > 0)
Vec(r) ==
    LET ok == \A k \in DOMAIN r.v : Fits(r.v[k], Zero, r.b) IN
    /\ r.ok <=> ok
    /\ ok => r.good /\ Len(r.x) = Len(r.v) /\ \A k \in DOMAIN r.v : r.x[k] = Becomes(r.v[k], r.b)
Step(r) ==
    CASE r.e = "run" -> hops' = {}
      [] r.e = "conv" -> /\ r.can
                         /\ r.ok <=> Fits(r.re, r.im, r.b)
                         /\ (r.ok /\ r.ex) => r.good /\ r.xre = Becomes(r.re, r.b) /\ r.xim = (IF Complex(r.b) THEN r.im ELSE Zero)
                         /\ Skip
      [] r.e = "kept" -> r.a = r.b /\ Skip
      [] r.e = "nan" -> ~r.ok /\ Skip
      [] r.e = "vconv" -> (r.ex => Vec(r)) /\ Skip
      [] r.e = "oconv" -> Vec(r) /\ (r.ok => r.back) /\ Skip
      [] r.e = "cmp" -> Seen(r, Cmp(r.x, r.y)) /\ Skip
      [] r.e = "scmp" -> Seen(r, StrCmp(r.x, r.y, 1)) /\ (r.x = r.y => r.hash) /\ Skip
      [] r.e = "bytes" -> r.v = r.s /\ r.back = r.s /\ r.u = r.s /\ Skip
      [] r.e = "cannot" -> ~r.can /\ ~r.ok /\ r.cmpthrows /\ r.nulleq /\ ~r.nullneq /\ Skip
      [] r.e = "maps" -> r.names /\ r.v = r.w /\ Skip
      [] r.e = "text" -> r.s = Text(r.n) /\ r.hash /\ Skip
      [] r.e = "hop" -> Hop(r.a, r.b, r.on)
      [] r.e = "went" -> /\ (r.can <=> Ways(r.a, r.b) # {}) /\ (r.can2 <=> r.can) /\ (r.ok <=> r.can)
                         /\ r.ok => r.good /\ r.way \in Ways(r.a, r.b)
                         /\ Skip
      [] OTHER -> FALSE
Next == l < Len(Trace) /\ Step(Trace[l + 1]) /\ l' = l + 1
Spec == Init /\ [][Next]_tvars
Accepted ==
    LET d == TLCGet("stats").diameter - 1
    IN IF d = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d + 1, Trace[d + 1].e>>) /\ FALSE
=============================================================================
