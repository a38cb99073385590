------------------------------ MODULE TraceAlloc ------------------------------
(***************************************************************************)
(* Validation of what the freestanding allocator really does.  Calls of one *)
(* thread are single steps; calls of several threads have a begin and a     *)
(* return each, and the grant lies between them.                            *)
(***************************************************************************)
EXTENDS Arena, TLC, Json, IOUtils, Sequences, SequencesExt

Trace == ndJsonDeserialize(IOEnv.TRACE)
Exact == IOEnv.EXACT = "1" \* whether lo and hi are the ends of the arena itself

VARIABLES l, lo, hi, got, used, pend
vars == <<l, lo, hi, got, used, pend>>
F(cond, name) == IF cond THEN {} ELSE {name}

Idle == [n |-> 0, al |-> 0]
NoPend == [t \in 1..6 |-> Idle]
Cost(r) == IF r.n = 0 \/ r.n > hi - lo \/ r.al > MaxAlign THEN 0 ELSE Padded(r.n, r.al)
Pending(but) == Cost(pend[1]) + Cost(pend[2]) + Cost(pend[3]) + Cost(pend[4]) + Cost(pend[5]) + Cost(pend[6]) - Cost(pend[but])

Granted(at, n, al) ==
  F(al <= MaxAlign, "an overaligned request was granted")
  \cup F(Aligned(at, al), "the memory is not aligned")
  \cup F(Inside(at, n, lo, hi), "the memory is not inside the arena")
  \cup F(DisjointFrom(got, at, n), "the memory was handed out before")
\* An arena that the symbol table does not show has at least half the size there always was.
Size == IF Exact THEN hi - lo ELSE 65536
Refused(n, al, u) == F(~SurelyFits(n, al, u, 0, Size, MaxAlign), "a request that fits was refused")

BadBlocks(ev) ==
  LET b == ev.b
      n == Len(b)
      total == FoldLeft(LAMBDA a, x : a + Padded(x[2], x[3]), 0, b)
  IN F(\A i \in 1..n : Aligned(b[i][1], b[i][3]), "the memory is not aligned")
     \cup F(\A i \in 1..n : Inside(b[i][1], b[i][2], lo, hi), "the memory is not inside the arena")
     \cup F(\A i \in 1..n - 1 : b[i][1] + b[i][2] <= b[i + 1][1], "the memory was handed out before")
     \cup F(total + Padded(500, 128) > Size, "requests that fit were refused")

Bad(ev) ==
  CASE ev.e = "new" -> {}
    [] ev.e = "got" -> Granted(ev.at, ev.n, ev.al) \cup F(ev.z = 1, "the contents of new memory")
    [] ev.e = "null" -> Refused(ev.n, ev.al, used)
    [] ev.e = "free" -> {}
    [] ev.e = "call" -> {}
    [] ev.e = "retgot" -> Granted(ev.at, pend[ev.t].n, pend[ev.t].al)
    [] ev.e = "retnull" -> Refused(pend[ev.t].n, pend[ev.t].al, used + Pending(ev.t))
    [] ev.e = "end" -> F(ev.bad = 0, "memory handed out was written to by others")
    [] ev.e = "blocks" -> BadBlocks(ev)

Init == l = 1 /\ lo = 0 /\ hi = 0 /\ got = {} /\ used = 0 /\ pend = NoPend
Is(S) == l <= Len(Trace) /\ Trace[l].e \in S
Step(ev) == LET bad == Bad(ev) IN
  IF bad = {} THEN l' = l + 1 ELSE PrintT(<<"NONCONFORM", l, bad>>) /\ FALSE

Begin == Is({"new"}) /\ Step(Trace[l])
  /\ lo' = Trace[l].lo /\ hi' = Trace[l].hi /\ got' = {} /\ used' = 0 /\ pend' = NoPend
Grant == Is({"got"}) /\ Step(Trace[l])
  /\ got' = got \cup {<<Trace[l].at, Trace[l].n>>}
  /\ used' = used + Padded(Trace[l].n, Trace[l].al)
  /\ UNCHANGED <<lo, hi, pend>>
Refuse == Is({"null"}) /\ Step(Trace[l]) /\ UNCHANGED <<lo, hi, got, used, pend>>
Free == Is({"free"}) /\ Step(Trace[l]) /\ UNCHANGED <<lo, hi, got, used, pend>>
Called == Is({"call"}) /\ Step(Trace[l])
  /\ pend' = [pend EXCEPT ![Trace[l].t] = [n |-> Trace[l].n, al |-> Trace[l].al]]
  /\ UNCHANGED <<lo, hi, got, used>>
ReturnGrant == Is({"retgot"}) /\ Step(Trace[l])
  /\ LET r == pend[Trace[l].t] IN
     /\ got' = got \cup {<<Trace[l].at, r.n>>}
     /\ used' = used + Padded(r.n, r.al)
  /\ pend' = [pend EXCEPT ![Trace[l].t] = Idle]
  /\ UNCHANGED <<lo, hi>>
ReturnNull == Is({"retnull"}) /\ Step(Trace[l])
  /\ pend' = [pend EXCEPT ![Trace[l].t] = Idle]
  /\ UNCHANGED <<lo, hi, got, used>>
Ended == Is({"end", "blocks"}) /\ Step(Trace[l]) /\ UNCHANGED <<lo, hi, got, used, pend>>
Next == Begin \/ Grant \/ Refuse \/ Free \/ Called \/ ReturnGrant \/ ReturnNull \/ Ended
Spec == Init /\ [][Next]_vars
View == l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
