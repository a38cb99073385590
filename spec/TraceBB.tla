------------------------------- MODULE TraceBB -------------------------------
(***************************************************************************)
(* Validation of recorded programs over bitboard registers.  The state is  *)
(* what the registers must hold; every event carries the full contents of  *)
(* the register it wrote.                                                  *)
(***************************************************************************)
EXTENDS Bitboards, Json, IOUtils, SequencesExt

Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP

VARIABLES l, reg, sreg       \* registers, and byte-swapped registers
Regs == 1..6
F(cond, name) == IF cond THEN {} ELSE {name}

\* The observed contents of a register must be exactly the set `x`.
Seen(ev, x) ==
  F(Range(ev.r) = x, "members")
  \cup F(ev.n = Cardinality(x), "count")
  \cup F((ev.z = 1) = (x = {}), "is_empty")
  \cup F(ev.q = 1, "equality with the same set built from single squares")

\* A search asks about members, each once, until one is in p: these are taken.
Found(ev) == ev.a # <<>> /\ Last(ev.a) \in Range(ev.p)
IsSearch(ev, x) ==
  /\ Range(ev.a) \subseteq x
  /\ Cardinality(Range(ev.a)) = Len(ev.a)
  /\ \A i \in 1..(Len(ev.a) - 1) : ev.a[i] \notin Range(ev.p)
  /\ Found(ev) \/ Range(ev.a) = x
Answer(ev) ==
  CASE ev.op \in {"find", "findmap", "tryfold", "tryeach"} -> IF Found(ev) THEN Last(ev.a) ELSE 0
    [] ev.op = "any" -> IF Found(ev) THEN 1 ELSE 0
    [] ev.op = "all" -> IF Found(ev) THEN 0 ELSE 1
    [] ev.op = "position" -> IF Found(ev) THEN Len(ev.a) - 1 ELSE -1

\* Value a plain event writes.
Value(ev) ==
  CASE ev.e = "load" -> Range(ev.m)
    [] ev.e = "and" -> And(reg[ev.x], reg[ev.y])
    [] ev.e = "or" -> Or(reg[ev.x], reg[ev.y])
    [] ev.e = "xor" -> Xor(reg[ev.x], reg[ev.y])
    [] ev.e = "andnot" -> AndNot(reg[ev.x], reg[ev.y])
    [] ev.e = "andsq" -> And(reg[ev.d], {ev.s})
    [] ev.e = "orsq" -> Or(reg[ev.d], {ev.s})
    [] ev.e = "xorsq" -> Xor(reg[ev.d], {ev.s})
    [] ev.e = "not" -> Not(reg[ev.x])
    [] ev.e = "copy" -> reg[ev.x]
    [] ev.e = "up" -> ShiftUp(reg[ev.x], ev.k)
    [] ev.e = "down" -> ShiftDown(reg[ev.x], ev.k)
    [] ev.e = "left" -> ShiftLeft(reg[ev.x], ev.k)
    [] ev.e = "right" -> ShiftRight(reg[ev.x], ev.k)
    [] ev.e = "flip" -> Flip(reg[ev.x])
    [] ev.e = "file" -> FileSet(ev.f, ev.p)
Plain == {"load", "and", "or", "xor", "andnot", "andsq", "orsq", "xorsq", "not", "copy",
          "up", "down", "left", "right", "flip", "file"}

SValue(ev) ==
  CASE ev.e = "swap" -> reg[ev.x]
    [] ev.e = "sand" -> And(sreg[ev.x], sreg[ev.y])
    [] ev.e = "sor" -> Or(sreg[ev.x], sreg[ev.y])
    [] ev.e = "sxor" -> Xor(sreg[ev.x], sreg[ev.y])
    [] ev.e = "sandnot" -> AndNot(sreg[ev.x], sreg[ev.y])
Swapped == {"swap", "sand", "sor", "sxor", "sandnot"}

\* Iterating over a set: every member once, in any order.
IsListing(list, x) == Len(list) = Cardinality(x) /\ Range(list) = x
Nth(t, x) == \* <<k, what nth(k) gave, what was left>>
  IF t[1] < Cardinality(x)
  THEN /\ t[2] \in x
       /\ Range(t[3]) \subseteq x \ {t[2]}
       /\ Len(t[3]) = Cardinality(x) - t[1] - 1
  ELSE t[2] = 0 /\ t[3] = <<>>
Sum(x) == SumOver(x, [s \in Squares |-> s])

Bad(ev) ==
  CASE ev.e = "new" -> {}
    [] ev.e \in Plain -> Seen(ev, Value(ev))
         \cup (IF ev.e = "copy" THEN F(ev.eq = 1, "round trip through the integer representation") ELSE {})
    [] ev.e \in Swapped -> Seen(ev, SValue(ev))
         \cup (IF ev.e = "swap" THEN F(ev.law = 1, "byte-swapped form is not the reversed bytes")
                                     \cup F(ev.via = 1, "round trip of the byte-swapped form")
               ELSE {})
    [] ev.e = "eq" -> LET same == IF reg[ev.x] = reg[ev.y] THEN 1 ELSE 0
                      IN F(\A i \in DOMAIN ev.v : ev.v[i] = same, "equality of bitboards")
    [] ev.e = "files" -> F(\A f \in 1..9 : ev.v[f] = FilePattern(reg[ev.x], f), "pattern of a file")
    [] ev.e = "pop" ->
         LET x == reg[ev.d] IN
         F(ev.lo <= Cardinality(x) /\ (ev.hi = -1 \/ Cardinality(x) <= ev.hi), "size hint")
         \cup (IF x = {} THEN F(ev.v = 0, "something taken from an empty set") \cup Seen(ev, {})
               ELSE IF CanPop(x, ev.v) THEN Seen(ev, Popped(x, ev.v))
               ELSE {"taken element is not a member"})
    [] ev.e = "seek" ->
         LET x == reg[ev.d] IN
         F(IsSearch(ev, x), "what a search comes to")
         \cup F(ev.v = Answer(ev), "what a search finds")
         \cup Seen(ev, x \ Range(ev.a))
    [] ev.e = "iter" ->
         LET x == reg[ev.x] IN
         F(IsListing(ev.l, x), "iteration")
         \cup F(IsListing(ev.m, x), "for loop")
         \cup F(ev.ic = Cardinality(x), "iterator count")
         \cup F(IF x = {} THEN ev.last = 0 ELSE ev.last \in x, "last of the iteration")
         \cup F(\A i \in DOMAIN ev.nth : Nth(ev.nth[i], x), "nth of the iteration")
         \cup F(ev.fold = Sum(x), "fold over the iteration")
         \cup (IF "ls" \in DOMAIN ev
               THEN F(\A i \in DOMAIN ev.ls : IsListing(ev.ls[i], x), "a method that uses the iteration up")
                    \cup F(\A i \in DOMAIN ev.ex : ev.ex[i] = 1, "greatest or least of the iteration")
                    \cup F(\A i \in DOMAIN ev.fl : ev.fl[i] = 1, "an adaptor of the iteration")
               ELSE {})
         \cup Seen(ev, x)

Init == /\ l = 1
        /\ reg = [i \in Regs |-> {}]
        /\ sreg = [i \in Regs |-> {}]

Effect(ev) ==
  CASE ev.e = "new" -> reg' = [i \in Regs |-> {}] /\ sreg' = [i \in Regs |-> {}]
    [] ev.e \in Plain -> reg' = [reg EXCEPT ![ev.d] = Value(ev)] /\ UNCHANGED sreg
    [] ev.e \in Swapped -> sreg' = [sreg EXCEPT ![ev.d] = SValue(ev)] /\ UNCHANGED reg
    [] ev.e = "pop" -> reg' = [reg EXCEPT ![ev.d] = Popped(@, ev.v)] /\ UNCHANGED sreg
    [] ev.e = "seek" -> reg' = [reg EXCEPT ![ev.d] = @ \ Range(ev.a)] /\ UNCHANGED sreg
    [] OTHER -> UNCHANGED <<reg, sreg>>

Step(ev) == LET bad == Bad(ev) IN
  IF bad = {} THEN l' = l + 1 /\ Effect(ev)
  ELSE PrintT(<<"NONCONFORM", l, bad>>) /\ FALSE

Is(S) == l <= Len(Trace) /\ Trace[l].e \in S
Begin     == Is({"new"}) /\ Step(Trace[l])
Loaded    == Is({"load", "copy", "file"}) /\ Step(Trace[l])
Combined  == Is({"and", "or", "xor", "andnot", "not", "andsq", "orsq", "xorsq"}) /\ Step(Trace[l])
Shifted   == Is({"up", "down", "left", "right", "flip"}) /\ Step(Trace[l])
ByteSwaps == Is(Swapped) /\ Step(Trace[l])
Taken     == Is({"pop", "seek"}) /\ Step(Trace[l])
Asked     == Is({"eq", "files", "iter"}) /\ Step(Trace[l])
Next == Begin \/ Loaded \/ Combined \/ Shifted \/ ByteSwaps \/ Taken \/ Asked

Spec == Init /\ [][Next]_<<l, reg, sreg>>
View == l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
