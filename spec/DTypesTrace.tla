------------------------------ MODULE DTypesTrace -----------------------------
EXTENDS DTypes, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ty, l
tvars == <<ty, l>>
With(t, dim) == [t |-> t, dim |-> dim]
Zero == [d \in 0..3 |-> With(Meaning(""), 1)]
Init == l = 0 /\ ty = Zero
\* all that the type tells about itself
Told(r, x) == /\ r.name = NameOf(x.t) /\ r.esize = ElemSize(x.t) /\ r.dimension = x.dim /\ r.size = ElemSize(x.t) * x.dim
              /\ r.isf = (x.t.kind = "f") /\ r.isi = (x.t.kind = "i") /\ r.iss = x.t.signed /\ r.isx = x.t.cx /\ r.isu = (x.t.kind = "u") /\ r.some = (x.t.kind # "")
              /\ r.text = NameOf(x.t) \o (IF x.dim # 1 \/ x.t.kind = "u" THEN "[" \o ToString(x.dim) \o "]" ELSE "")
Step(r) ==
    CASE r.e = "run" -> ty' = Zero
      [] r.e = "dtype" -> LET t == Meaning(r.word)
                          IN /\ r.ok <=> t # None
                             /\ IF r.ok THEN ty' = [ty EXCEPT ![r.d] = With(t, r.dim)] /\ Told(r, With(t, r.dim)) ELSE UNCHANGED ty
      [] r.e = "again" -> ty' = [ty EXCEPT ![r.d] = ty[r.from]] /\ Told(r, ty[r.from])
      [] r.e = "same" -> r.eq = (ty[r.d] = ty[r.from]) /\ r.ne = ~r.eq /\ UNCHANGED ty
      [] r.e = "end" -> UNCHANGED ty
      [] OTHER -> FALSE
Next == l < Len(Trace) /\ Step(Trace[l + 1]) /\ l' = l + 1
Spec == Init /\ [][Next]_tvars
Accepted ==
    LET d == TLCGet("stats").diameter - 1
    IN IF d = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d + 1, Trace[d + 1].e>>) /\ FALSE
=============================================================================
