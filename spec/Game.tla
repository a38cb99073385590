-------------------------------- MODULE Game --------------------------------
(***************************************************************************)
(* A game: a position and how it is resolved.  Nothing a game offers        *)
(* changes its position.                                                    *)
(***************************************************************************)
EXTENDS Position

\* 0: none, 1: BlackWins, 2: WhiteWins, 3: Draw, 4: Rematch, 5: Aborted
Resolutions == 1..5
NoResolution == 0

FreshGame == [pos |-> StartPosition, res |-> NoResolution]
ResolvedAs(g, r) == [g EXCEPT !.res = r]
Unresolved(g) == [g EXCEPT !.res = NoResolution]

\* What the history of operations (0: withdraw, r: resolve as r) says.
RECURSIVE LastSet(_)
LastSet(ops) == IF ops = <<>> THEN NoResolution ELSE ops[Len(ops)]
=============================================================================
