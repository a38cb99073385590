------------------------------ MODULE Legality ------------------------------
(***************************************************************************)
(* What a legality checker answers by default.  A checker supplies a status *)
(* for positions with history, and three answers for positions without:     *)
(* is this move legal (0: yes, otherwise the number of the reason), the     *)
(* quick form of it (0/1), and the list of all legal moves.                 *)
(***************************************************************************)
EXTENDS Position

\* 1 BlackWins, 2 WhiteWins, 3 Draw, 4 InProgress, 5 Invalid
Statuses == 1..5
InProgress == 4
LegalMove == 0
Reasons == 1..7
GameFinished == 6

IsLegal(status, partial) == IF status # InProgress THEN GameFinished ELSE partial
IsLegalLite(status, partial) == IF status # InProgress THEN 0 ELSE partial
AllLegalMoves(status, partial) == IF status # InProgress THEN <<>> ELSE partial

\* A checker is consistent if it calls nothing legal that makes no sense.
Consistent(st, m, partial) == partial = LegalMove => MakesSense(st, m)

MakeLegalMove(st, m, status, partial) ==
  IF IsLegal(status, partial) = LegalMove THEN MoveEffect(st, m) ELSE st
=============================================================================
