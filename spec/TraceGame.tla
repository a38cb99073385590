----------------------------- MODULE TraceGame -----------------------------
(***************************************************************************)
(* Validation of recorded sessions of games against Game.tla.  Every event  *)
(* carries the resolution as both interfaces report it, all queries of the  *)
(* position (as differences, as in TracePos), and comparisons with six      *)
(* reference games, one per resolution and one unresolved.                  *)
(***************************************************************************)
EXTENDS Game, Json, IOUtils, SequencesExt

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, g

F(cond, name) == IF cond THEN {} ELSE {name}
\* A difference list against zeros, as a function.
At(ev, n, i) == IF n \in DOMAIN ev
                THEN FoldLeft(LAMBDA a, x : IF x[1] = i THEN x[2] ELSE a, 0, ev[n]) ELSE 0
DeltaNames == {"pa", "bp", "bk", "bc", "oc", "va", "hp", "hd", "sc", "ct", "in", "im", "md"}

Expected(ev) == CASE ev.e = "new" -> FreshGame
                  [] ev.e = "rs" -> ResolvedAs(g, ev.r)
                  [] ev.e = "un" -> Unresolved(g)
                  [] ev.e = "cl" -> g

PositionOf(ev) ==
  IF ev.e # "new" THEN F(DeltaNames \cap DOMAIN ev = {}, "the position of the game changed")
  ELSE F(\A s \in Squares : At(ev, "pa", s) = StartBoard[s], "initial board of a game")
       \cup F("hd" \notin DOMAIN ev, "initial hands of a game")
       \cup F(<<At(ev, "sc", 1), At(ev, "sc", 2), At(ev, "sc", 3)>> = <<Black, 1, 0>>, "initial turn of a game")
       \cup F("md" \notin DOMAIN ev, "initial moves of a game")

Bad(ev, h) ==
  F(ev.res = h.res, "resolution") \cup F(ev.cres = h.res, "resolution reported by the C accessor")
  \cup F(ev.same = 1, "position of the game differs from that of a fresh game")
  \cup PositionOf(ev)
  \cup F(\A r \in 0..5 : ev.eq[r + 1] = (IF r = h.res THEN 1 ELSE 0), "equality of games")
  \cup F(\A r \in 0..5 : r = h.res => ev.hq[r + 1] = 1, "hash of equal games")
  \cup F(\A r \in 0..5 : (ev.cmp[r + 1] = 0) <=> (r = h.res), "games comparing equal")

Init == l = 1 /\ g = FreshGame
Step(ev) == LET h == Expected(ev)
                bad == Bad(ev, h)
            IN IF bad = {} THEN l' = l + 1 /\ g' = h
               ELSE PrintT(<<"NONCONFORM", l, bad>>) /\ FALSE
Is(e) == l <= Len(Trace) /\ Trace[l].e = e
Started == Is("new") /\ Step(Trace[l])
WasResolved == Is("rs") /\ Step(Trace[l])
WasUnresolved == Is("un") /\ Step(Trace[l])
WasCloned == Is("cl") /\ Step(Trace[l])
Next == Started \/ WasResolved \/ WasUnresolved \/ WasCloned
Spec == Init /\ [][Next]_<<l, g>>
View == l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
