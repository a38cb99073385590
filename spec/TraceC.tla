------------------------------- MODULE TraceC -------------------------------
(***************************************************************************)
(* What is specific to the C interface: which functions exist, how large    *)
(* values are, and games made and asked through C.                          *)
(***************************************************************************)
EXTENDS Game, Json, IOUtils, SequencesExt

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
F(cond, name) == IF cond THEN {} ELSE {name}

\* Positions with history, and games of them, are there only with an allocator.
NeedsAlloc(n) == \E p \in {"Position_", "Game_"} : Len(n) >= Len(p) /\ SubSeq(n, 1, Len(p)) = p
Expected(ev) == {n \in Range(ev.declared) : ev.alloc = 1 \/ ~NeedsAlloc(n)}
\* Array sizes offered for values used as indices: one more than the largest.
Constants == [Color |-> 2, Piece |-> 31, OptionPieceKind |-> 15]

\* v: rows [operation, resolution of a game, of a game without history, position is the initial one]
BadGame(ev) ==
  LET ops(i) == [j \in 1..i - 1 |-> ev.v[j + 1][1]]
  IN F(\A i \in DOMAIN ev.v : ev.v[i][2] = LastSet(ops(i)), "resolution of a game from C")
     \cup F(\A i \in DOMAIN ev.v : ev.v[i][3] = LastSet(ops(i)), "resolution of a game without history from C")
     \cup F(\A i \in DOMAIN ev.v : ev.v[i][4] = 1, "position of a game from C")

Bad(ev) ==
  CASE ev.f = "exports" ->
         F(Expected(ev) \subseteq Range(ev.exported), <<"declared but not exported", Expected(ev) \ Range(ev.exported)>>)
         \cup F(Range(ev.exported) \subseteq Expected(ev), <<"exported but not declared", Range(ev.exported) \ Expected(ev)>>)
    [] ev.f = "consts" -> F(ev.v = Constants[ev.ty], <<"size of an array indexed by", ev.ty>>)
    [] ev.f = "layout" -> F(ev.lib = ev.hdr, <<"size and alignment in library and header", ev.ty>>)
    [] ev.f = "fields" -> F(\A i \in DOMAIN ev.v : ev.v[i] = 1, "fields in the header are not where the library has them")
    [] ev.f = "cgame" -> BadGame(ev)

Init == l = 1
Is(S) == l <= Len(Trace) /\ Trace[l].f \in S
Step(bad) == IF bad = {} THEN l' = l + 1 ELSE PrintT(<<"NONCONFORM", l, bad>>) /\ FALSE
Interface == Is({"exports", "layout", "fields", "consts"}) /\ Step(Bad(Trace[l]))
Games == Is({"cgame"}) /\ Step(Bad(Trace[l]))
Next == Interface \/ Games
Spec == Init /\ [][Next]_l
View == l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
