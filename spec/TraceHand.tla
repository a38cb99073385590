------------------------------ MODULE TraceHand ------------------------------
(***************************************************************************)
(* Validation of recorded programs over hand registers.                    *)
(***************************************************************************)
EXTENDS Hands, Json, IOUtils, SequencesExt

Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP

VARIABLES l, reg
Regs == 1..3
F(cond, name) == IF cond THEN {} ELSE {name}

After(ev) ==
  CASE ev.e = "add" -> Added(reg[ev.d], ev.k)
    [] ev.e = "rem" -> Removed(reg[ev.d], ev.k)
    [] ev.e = "copy" -> reg[ev.x]

Bad(ev) ==
  CASE ev.e = "new" -> F(ev.h = Counts(Fresh), "a new hand is not empty")
    [] ev.e = "add" ->
         F((ev.r = 1) = CanAdd(reg[ev.d], ev.k), "whether the piece can be added")
         \cup F(ev.h = Counts(After(ev)), "counts after adding")
         \cup F(ev.o = 1, "adding changed the hand it was asked of")
         \cup F(ev.q = 1, "unequal to a hand of the same counts")
    [] ev.e = "rem" ->
         F((ev.r = 1) = CanRemove(reg[ev.d], ev.k), "whether the piece can be removed")
         \cup F(ev.h = Counts(After(ev)), "counts after removing")
         \cup F(ev.o = 1, "removing changed the hand it was asked of")
         \cup F(ev.q = 1, "unequal to a hand of the same counts")
    [] ev.e = "copy" -> F(ev.h = Counts(After(ev)), "counts of a copy")
    [] ev.e = "eq" ->
         LET same == IF reg[ev.x] = reg[ev.y] THEN 1 ELSE 0 IN
         F(\A i \in DOMAIN ev.v : ev.v[i] = same, "equality of hands")
         \cup F(same = 1 => ev.hq = 1, "hashes of equal hands")
    [] ev.e = "op" ->      \* one step from the counts b, by itself
         LET h == SubSeq(ev.b, 1, 7)
             ok == IF ev.add = 1 THEN CanAdd(h, ev.k) ELSE CanRemove(h, ev.k) IN
         F(\A k \in 1..7 : h[k] \in 0..255, "the hand was not what was put into it")
         \cup F(SubSeq(ev.b, 8, 14) = SubSeq(Counts(h), 8, 14), "counts of kinds that cannot be in hand")
         \cup F((ev.r = 1) = ok, "whether the piece can be added or removed")
         \cup F(ev.h = Counts(IF ev.add = 1 THEN Added(h, ev.k) ELSE Removed(h, ev.k)), "counts after adding or removing")
         \cup F(ev.q = 1, "the step undone, or compared with what was before")
    [] ev.e = "pair" ->
         LET same == IF ev.b = ev.h THEN 1 ELSE 0 IN
         F(\A i \in DOMAIN ev.v : ev.v[i] = same, "equality of hands")
         \cup F(same = 1 => ev.hq = 1, "hashes of equal hands")
    [] ev.e = "tab" ->
         F(ev.all = <<1, 2, 3, 4, 5, 6, 7>> /\ ev.num = 7, "the enumeration of hand kinds")
         \cup F(\A k \in 1..14 : (ev.is[k] = 1) = IsHandKind(k), "which kinds can be in hand")
         \cup F(ev.bw = [j \in 1..28 |-> IF j <= 14 THEN Count(reg[ev.d], j) ELSE Count(Fresh, j - 14)],
                "counts by piece")
         \cup F(ev.other = Counts(Fresh), "the other player's hand")

Init == l = 1 /\ reg = [i \in Regs |-> Fresh]
Effect(ev) ==
  CASE ev.e = "new" -> reg' = [i \in Regs |-> Fresh]
    [] ev.e \in {"add", "rem", "copy"} -> reg' = [reg EXCEPT ![ev.d] = After(ev)]
    [] OTHER -> UNCHANGED reg
Step(ev) == LET bad == Bad(ev) IN
  IF bad = {} THEN l' = l + 1 /\ Effect(ev)
  ELSE PrintT(<<"NONCONFORM", l, bad>>) /\ FALSE
Is(S) == l <= Len(Trace) /\ Trace[l].e \in S
Begin   == Is({"new"}) /\ Step(Trace[l])
Addition == Is({"add"}) /\ Step(Trace[l])
Removal == Is({"rem"}) /\ Step(Trace[l])
Copied  == Is({"copy"}) /\ Step(Trace[l])
Asked   == Is({"eq", "tab", "op", "pair"}) /\ Step(Trace[l])
Next == Begin \/ Addition \/ Removal \/ Copied \/ Asked
Spec == Init /\ [][Next]_<<l, reg>>
View == l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
