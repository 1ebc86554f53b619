------------------------------ MODULE ActorTrace ------------------------------
(* Checks the user code entered and left in a recorded run against Actor.       *)
EXTENDS Actor, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<avars, l>>
ToSet(s) == {s[k] : k \in DOMAIN s}

Init == l = 0 /\ own = <<>> /\ life = <<>> /\ wanted = {} /\ erring = {} /\ failed = {} /\ thrown = {} /\ up = TRUE
Skip == UNCHANGED avars
Edge(r) == <<r.o, r.i, r.ob, r.ib>>

Step(r) ==
    CASE r.e = "run" -> AReset(ToSet(r.blocks))
      [] r.e = "in" -> Enter(r.b, r.t, r.k)
      [] r.e = "out" -> Leave(r.b, r.t, r.k)
      [] r.e = "activated" -> Activated(r.b)
      [] r.e = "athrow" -> ActivateThrows(r.b)
      [] r.e = "deactivated" -> Deactivated(r.b)
      [] r.e = "dthrow" -> DeactivateThrows(r.b)
      [] r.e \in {"link", "slink", "opening", "sopening"} -> Want(Edge(r))
      [] r.e \in {"unlink", "sunlink", "closing", "sclosing"} -> Unwant(Edge(r))
      [] r.e = "commit" -> Commit(r.ok, ToSet(r.named))
      [] r.e = "act" -> ToSet(r.on) = {b \in DOMAIN life : life[b] = "on"} /\ Skip
      [] r.e = "down" -> Down
      [] r.e = "freed" -> Freed(r.b)
      [] r.e = "gone" -> (\A b \in DOMAIN life : life[b] = "gone") /\ Skip
      [] r.e = "cthrow" -> CallThrows(r.x)
      [] r.e = "ccaught" -> CallCaught(r.x, r.same)
      [] r.e = "ret" -> CallReturned(r.x) /\ r.y = r.x + (CASE r.m = "poke" -> 1000 [] r.m = "over1" -> 10000 [] r.m = "over2" -> 20000 [] r.m = "over3" -> 30000 [] r.m = "over4" -> 40000 [] OTHER -> 1)
      [] r.e \in {"mk", "res", "wb", "we", "prop", "held", "idle", "turn", "wm", "post", "posted", "pop", "peek", "slot", "probed"} -> Skip
      [] OTHER -> FALSE

Next == l < Len(Trace) /\ Step(Trace[l + 1]) /\ l' = l + 1
Spec == Init /\ [][Next]_tvars

Accepted ==
    LET d == TLCGet("stats").diameter - 1
    IN IF d = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d + 1, Trace[d + 1].e>>) /\ FALSE
=============================================================================
