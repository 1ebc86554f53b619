------------------------------- MODULE Buffers --------------------------------
(* A buffer manager (generic or circular) hands out its buffers in a fixed      *)
(* order and gets each back when the last reference to it is dropped. Buffer    *)
(* accumulators queue chunks as one byte stream.                                *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES
    kind, nb, bs,  \* "generic" or "circular", number of buffers, bytes per buffer
    cur,           \* the buffer in front, 0..nb-1
    base,          \* where it starts (offset in the memory)
    used,          \* bytes taken from it so far
    moved,         \* it is known that the manager has finished with it
    held,          \* [id -> [toks, sure, off, len]]  references the user has
    leaving,       \* buffers whose last known references are being dropped by another thread
    acc            \* [accumulator -> [pend: Seq(byte), toks, req]]
bvars == <<kind, nb, bs, cur, base, used, moved, held, leaving, acc>>

Size == nb * bs
BReset(k, n, b) ==
    /\ kind' = k /\ nb' = n /\ bs' = b /\ cur' = 0 /\ base' = 0 /\ used' = 0 /\ moved' = FALSE
    /\ held' = <<>> /\ leaving' = {} /\ acc' = [a \in {1, 2} |-> [pend |-> <<>>, toks |-> {}, req |-> 0]]

\* offsets covered by len bytes from off, around the ring
Overlap(o1, l1, o2, l2) ==
    /\ l1 > 0 /\ l2 > 0
    /\ ((o2 - o1) % Size < l1 \/ (o1 - o2) % Size < l2)

SureBusy(t) == \E h \in DOMAIN held : held[h].sure /\ t \in held[h].toks
MayBeBusy(t) == (\E h \in DOMAIN held : t \in held[h].toks) \/ t \in leaving \/ (\E a \in DOMAIN acc : t \in acc[a].toks)

NextBuf == (cur + 1) % nb
NextBase == IF kind = "circular" THEN (base + used) % Size ELSE NextBuf * bs

\* the manager shows its front
FrontStay(off, len) ==
    /\ ~moved /\ used < bs
    /\ off = (base + used) % Size /\ len = bs - used
    /\ UNCHANGED bvars
FrontNext(off, len) ==
    /\ used > 0
    /\ ~SureBusy(NextBuf)
    /\ off = NextBase /\ len = bs
    /\ cur' = NextBuf /\ base' = NextBase /\ used' = 0 /\ moved' = FALSE
    /\ UNCHANGED <<kind, nb, bs, held, leaving, acc>>
FrontEmpty ==
    /\ used > 0
    /\ MayBeBusy(NextBuf)
    /\ moved' = TRUE
    /\ UNCHANGED <<kind, nb, bs, cur, base, used, held, leaving, acc>>

\* the user takes n bytes of the front, as a reference of its own
Take(id, off, n) ==
    /\ off = (base + used) % Size /\ n > 0 /\ n <= bs - used /\ ~moved
    /\ \A h \in DOMAIN held : held[h].sure => ~Overlap(off, n, held[h].off, held[h].len)
    /\ used' = used + n
    /\ held' = [h \in DOMAIN held \cup {id} |-> IF h = id THEN [toks |-> {cur}, sure |-> TRUE, off |-> off, len |-> n] ELSE held[h]]
    /\ UNCHANGED <<kind, nb, bs, cur, base, moved, leaving, acc>>

Dup(id, from) ==
    /\ from \in DOMAIN held
    /\ held' = [h \in DOMAIN held \cup {id} |-> IF h = id THEN held[from] ELSE held[h]]
    /\ UNCHANGED <<kind, nb, bs, cur, base, used, moved, leaving, acc>>
Cut(id, n) ==
    /\ held' = [held EXCEPT ![id].off = (@ + n) % Size, ![id].len = @ - n]
    /\ UNCHANGED <<kind, nb, bs, cur, base, used, moved, leaving, acc>>
\* several references become one chunk of all of their bytes (whole), or of the
\* first of them when they do not follow each other in memory
Gather(id, parts, off, n, whole) ==
    /\ \A k \in 1..Len(parts) : parts[k] \in DOMAIN held
    /\ n > 0
    /\ held' = [h \in (DOMAIN held \ {parts[k] : k \in 1..Len(parts)}) \cup {id} |->
                 IF h = id THEN [toks |-> UNION {held[parts[k]].toks : k \in 1..Len(parts)}, sure |-> whole, off |-> off, len |-> n] ELSE held[h]]
    /\ UNCHANGED <<kind, nb, bs, cur, base, used, moved, leaving, acc>>
\* one reference assigned over another: what that one referred to is let go
Assign(to, from, move) ==
    /\ to \in DOMAIN held /\ from \in DOMAIN held
    /\ held' = [h \in DOMAIN held \ (IF move THEN {from} ELSE {}) |-> IF h = to THEN held[from] ELSE held[h]]
    /\ UNCHANGED <<kind, nb, bs, cur, base, used, moved, leaving, acc>>
DropRef(id, later) ==
    /\ id \in DOMAIN held
    /\ leaving' = IF later THEN leaving \cup held[id].toks ELSE leaving
    /\ held' = [h \in DOMAIN held \ {id} |-> held[h]]
    /\ UNCHANGED <<kind, nb, bs, cur, base, used, moved, acc>>
\* all other threads are done
Quiet == leaving' = {} /\ UNCHANGED <<kind, nb, bs, cur, base, used, moved, held, acc>>

\* ------------------------------------------------------------ accumulators
\* id: the reference that goes in (0: other memory); kept: the user keeps a copy
APush(a, id, kept, v) ==
    /\ acc' = [acc EXCEPT ![a].pend = @ \o v, ![a].toks = @ \cup (IF id = 0 THEN {} ELSE held[id].toks)]
    /\ held' = IF id = 0 \/ kept THEN held ELSE [h \in DOMAIN held \ {id} |-> held[h]]
    /\ UNCHANGED <<kind, nb, bs, cur, base, used, moved, leaving>>
\* the front is a contiguous part of what is pending, as long as was required
AFront(a, v, tot, empty) ==
    /\ tot = Len(acc[a].pend)
    /\ empty <=> tot = 0
    /\ Len(v) <= tot /\ (tot > 0 => Len(v) > 0)
    /\ v = SubSeq(acc[a].pend, 1, Len(v))
    /\ acc[a].req <= tot => Len(v) >= acc[a].req
    /\ UNCHANGED bvars
\* holds until the next pop
ARequire(a, n) ==
    /\ acc' = [acc EXCEPT ![a].req = IF n <= Len(acc[a].pend) /\ n > @ THEN n ELSE @]
    /\ UNCHANGED <<kind, nb, bs, cur, base, used, moved, held, leaving>>
APop(a, n) ==
    /\ n <= Len(acc[a].pend)
    /\ acc' = [acc EXCEPT ![a] = [pend |-> SubSeq(@.pend, n + 1, Len(@.pend)),
                                   toks |-> IF n = Len(@.pend) THEN {} ELSE @.toks, req |-> 0]]
    /\ UNCHANGED <<kind, nb, bs, cur, base, used, moved, held, leaving>>
AClear(a) ==
    /\ acc' = [acc EXCEPT ![a] = [pend |-> <<>>, toks |-> {}, req |-> 0]]
    /\ UNCHANGED <<kind, nb, bs, cur, base, used, moved, held, leaving>>
\* the user keeps the front of an accumulator (it may be a copy: unknown buffers)
AKeep(a, id, n) ==
    /\ n <= Len(acc[a].pend)
    /\ held' = [h \in DOMAIN held \cup {id} |-> IF h = id THEN [toks |-> acc[a].toks, sure |-> FALSE, off |-> 0, len |-> 0] ELSE held[h]]
    /\ UNCHANGED <<kind, nb, bs, cur, base, used, moved, leaving, acc>>

\* with everything returned, all buffers but what is left of a started one can be had
Full(n) == n >= nb - 1

\* ------------------------------------------------------------------ invariants
Disjoint == \A g, h \in DOMAIN held : held[g].sure /\ held[h].sure /\ g # h =>
                \/ ~Overlap(held[g].off, held[g].len, held[h].off, held[h].len)
                \/ held[g].toks \cap held[h].toks # {}
\* the part of the front not yet taken belongs to nobody
FrontFree == ~moved /\ used < bs /\ ~SureBusy(cur) =>
    \A h \in DOMAIN held : held[h].sure => ~Overlap((base + used) % Size, bs - used, held[h].off, held[h].len)
==============================================================================
