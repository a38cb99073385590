------------------------------ MODULE ShogiBase ------------------------------
(***************************************************************************)
(* Values of the shogi_core data model, in the encodings the crate         *)
(* documents as its representations (and exposes through its C bindings).  *)
(*                                                                         *)
(*   color   1 = Black (moves first), 2 = White                            *)
(*   kind    1..8 = P L N S G B R K, 9..14 = promoted P L N S B R          *)
(*   piece   kind for a black piece, kind + 16 for a white one; 0 = none   *)
(*   square  9 * file + rank - 9, i.e. 1..81; 0 = none                     *)
(*   move    a record, see below; its packed form is a 16-bit number       *)
(*                                                                         *)
(* Everything here is a constant operator: no state.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Range(f) == {f[x] : x \in DOMAIN f}
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

-----------------------------------------------------------------------------
(* Colors *)
Black == 1
White == 2
Colors == {Black, White}
Opp(c) == 3 - c

-----------------------------------------------------------------------------
(* Piece kinds *)
Kinds == 1..14
Pawn == 1   Lance == 2   Knight == 3   Silver == 4
Gold == 5   Bishop == 6  Rook == 7     King == 8
ProPawn == 9    ProLance == 10  ProKnight == 11
ProSilver == 12 ProBishop == 13 ProRook == 14

\* 0 stands for "cannot".
PromoteKindTable == <<ProPawn, ProLance, ProKnight, ProSilver, 0, ProBishop, ProRook, 0,
                      0, 0, 0, 0, 0, 0>>
UnpromoteKindTable == <<0, 0, 0, 0, 0, 0, 0, 0,
                        Pawn, Lance, Knight, Silver, Bishop, Rook>>
PromoteKind(k) == PromoteKindTable[k]
UnpromoteKind(k) == UnpromoteKindTable[k]
\* The kind a piece reverts to when it changes sides.
BaseKind(k) == IF UnpromoteKind(k) # 0 THEN UnpromoteKind(k) ELSE k
HandKinds == 1..7
IsHandKind(k) == k \in HandKinds

-----------------------------------------------------------------------------
(* Pieces *)
Piece(k, c) == IF c = White THEN k + 16 ELSE k
Pieces == {Piece(k, c) : k \in Kinds, c \in Colors}
OptPieces == Pieces \cup {0}
KindOf(p) == p % 16
ColorOf(p) == IF p >= 16 THEN White ELSE Black
PromotePiece(p) == IF PromoteKind(KindOf(p)) = 0 THEN 0
                   ELSE Piece(PromoteKind(KindOf(p)), ColorOf(p))
UnpromotePiece(p) == IF UnpromoteKind(KindOf(p)) = 0 THEN 0
                     ELSE Piece(UnpromoteKind(KindOf(p)), ColorOf(p))

-----------------------------------------------------------------------------
(* Squares *)
Squares == 1..81
OptSquares == 0..81
File(s) == ((s - 1) \div 9) + 1
Rank(s) == ((s - 1) % 9) + 1
OnBoard(f, r) == f \in 1..9 /\ r \in 1..9
Sq(f, r) == 9 * f + r - 9
OptSq(f, r) == IF OnBoard(f, r) THEN Sq(f, r) ELSE 0
\* Looking from the other side of the board: file and rank are both mirrored.
FlipSq(s) == Sq(10 - File(s), 10 - Rank(s))
RelFile(s, c) == IF c = Black THEN File(s) ELSE 10 - File(s)
RelRank(s, c) == IF c = Black THEN Rank(s) ELSE 10 - Rank(s)
ShiftSq(s, df, dr) == OptSq(File(s) + df, Rank(s) + dr)

-----------------------------------------------------------------------------
(* Moves.  A normal move carries its source square in `a` and its promotion *)
(* flag in `pro`; a drop carries the dropped piece in `a` and pro = 0.      *)
NormalMove(from, to, pro) == [drop |-> 0, a |-> from, to |-> to, pro |-> pro]
DropMove(pc, to) == [drop |-> 1, a |-> pc, to |-> to, pro |-> 0]
NormalMoves == {NormalMove(f, t, p) : f \in Squares, t \in Squares, p \in {0, 1}}
DropMoves == {DropMove(p, t) : p \in Pieces, t \in Squares}
Moves == NormalMoves \cup DropMoves

\* The packed form documented for CompactMove; never zero.
Pack(m) == IF m.drop = 1 THEN m.a * 256 + 128 + m.to
           ELSE m.pro * 32768 + m.a * 256 + m.to
Unpack(w) == IF (w \div 128) % 2 = 1
             THEN DropMove(w \div 256, w % 128)
             ELSE NormalMove((w \div 256) % 128, w % 128, w \div 32768)

=============================================================================
