------------------------------ MODULE Notation ------------------------------
(***************************************************************************)
(* USI text of values and SFEN text of positions: a writer and a reader,   *)
(* independent of each other.                                              *)
(***************************************************************************)
EXTENDS Position, SequencesExt

Ch(t, i) == SubSeq(t, i, i)
Digits == <<"1", "2", "3", "4", "5", "6", "7", "8", "9">>
RankLetters == <<"a", "b", "c", "d", "e", "f", "g", "h", "i">>
KindText == <<"P", "L", "N", "S", "G", "B", "R", "K", "+P", "+L", "+N", "+S", "+B", "+R">>
LowerText == <<"p", "l", "n", "s", "g", "b", "r", "k", "+p", "+l", "+n", "+s", "+b", "+r">>

-----------------------------------------------------------------------------
(* Writing *)
ColorText(c) == IF c = Black THEN "b" ELSE "w"
SquareText(s) == Digits[File(s)] \o RankLetters[Rank(s)]
PieceText(p) == IF ColorOf(p) = Black THEN KindText[KindOf(p)] ELSE LowerText[KindOf(p)]
MoveText(m) ==
  IF m.drop = 1 THEN KindText[KindOf(m.a)] \o "*" \o SquareText(m.to)
  ELSE SquareText(m.a) \o SquareText(m.to) \o (IF m.pro = 1 THEN "+" ELSE "")

HandOrder == <<Rook, Bishop, Gold, Silver, Knight, Lance, Pawn>>
CountText(n, letter) == IF n = 0 THEN "" ELSE IF n = 1 THEN letter ELSE ToString(n) \o letter
OneHandText(h, c) == FoldLeft(LAMBDA t, k : t \o CountText(h[k], PieceText(Piece(k, c))), "", HandOrder)
HandsText(hands) ==
  LET t == OneHandText(hands[1], Black) \o OneHandText(hands[2], White)
  IN IF t = "" THEN "-" ELSE t

RunText(n) == IF n = 0 THEN "" ELSE Digits[n]
RankText(board, r) ==
  LET put(a, i) == LET p == board[Sq(10 - i, r)] IN
        IF p = 0 THEN [a EXCEPT !.run = @ + 1]
        ELSE [t |-> a.t \o RunText(a.run) \o PieceText(p), run |-> 0]
      z == FoldLeft(put, [t |-> "", run |-> 0], <<1, 2, 3, 4, 5, 6, 7, 8, 9>>)
  IN z.t \o RunText(z.run)
BoardText(board) ==
  FoldLeft(LAMBDA t, r : t \o (IF r = 1 THEN "" ELSE "/") \o RankText(board, r), "", <<1, 2, 3, 4, 5, 6, 7, 8, 9>>)
SfenText(st) ==
  BoardText(st.board) \o " " \o ColorText(st.side) \o " " \o HandsText(st.hands) \o " " \o ToString(st.ply)

-----------------------------------------------------------------------------
(* Reading *)
DigitOf == [c \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"} |->
              IF c = "0" THEN 0 ELSE CHOOSE d \in 1..9 : Digits[d] = c]
IsDigit(c) == c \in DOMAIN DigitOf
LetterRank == [c \in Range(RankLetters) |-> CHOOSE r \in 1..9 : RankLetters[r] = c]
LetterPiece == [c \in {KindText[k] : k \in 1..8} \cup {LowerText[k] : k \in 1..8} |->
                  IF \E k \in 1..8 : KindText[k] = c THEN Piece(CHOOSE k \in 1..8 : KindText[k] = c, Black)
                  ELSE Piece(CHOOSE k \in 1..8 : LowerText[k] = c, White)]
IsLetter(c) == c \in DOMAIN LetterPiece

ReadSquare(t) == IF Len(t) = 2 /\ IsDigit(Ch(t, 1)) /\ Ch(t, 1) # "0" /\ Ch(t, 2) \in DOMAIN LetterRank
                 THEN Sq(DigitOf[Ch(t, 1)], LetterRank[Ch(t, 2)]) ELSE 0
\* A kind: an optional + and a capital letter.
ReadKind(t) ==
  IF Len(t) = 1 /\ IsLetter(t) /\ ColorOf(LetterPiece[t]) = Black THEN KindOf(LetterPiece[t])
  ELSE IF Len(t) = 2 /\ Ch(t, 1) = "+" /\ IsLetter(Ch(t, 2)) THEN PromoteKind(KindOf(LetterPiece[Ch(t, 2)])) ELSE 0
ReadMove(t, side) ==
  LET n == Len(t) IN
  IF \E i \in 1..n : Ch(t, i) = "*"
  THEN LET i == CHOOSE i \in 1..n : Ch(t, i) = "*"
       IN DropMove(Piece(ReadKind(SubSeq(t, 1, i - 1)), side), ReadSquare(SubSeq(t, i + 1, n)))
  ELSE NormalMove(ReadSquare(SubSeq(t, 1, 2)), ReadSquare(SubSeq(t, 3, 4)),
                  IF n = 5 /\ Ch(t, 5) = "+" THEN 1 ELSE 0)

\* One pass over the text; `bad` is set when it is not SFEN.
Start0 == [sec |-> 0, f |-> 9, r |-> 1, plus |-> FALSE, n |-> 0, dash |-> FALSE,
           board |-> [s \in 1..81 |-> 0], side |-> 0,
           hands |-> <<<<0, 0, 0, 0, 0, 0, 0>>, <<0, 0, 0, 0, 0, 0, 0>>>>, ply |-> 0, bad |-> FALSE]
Fail(a) == [a EXCEPT !.bad = TRUE]
ReadStep(a, c) ==
  IF a.bad THEN a ELSE
  CASE a.sec = 0 ->
         (CASE c = "/" -> IF a.f = 0 /\ a.r < 9 /\ ~a.plus THEN [a EXCEPT !.f = 9, !.r = @ + 1] ELSE Fail(a)
            [] c = " " -> IF a.f = 0 /\ a.r = 9 /\ ~a.plus THEN [a EXCEPT !.sec = 1] ELSE Fail(a)
            [] c = "+" -> IF a.plus THEN Fail(a) ELSE [a EXCEPT !.plus = TRUE]
            [] IsDigit(c) -> IF DigitOf[c] \in 1..a.f /\ ~a.plus THEN [a EXCEPT !.f = @ - DigitOf[c]] ELSE Fail(a)
            [] IsLetter(c) ->
                 LET p == IF a.plus THEN PromotePiece(LetterPiece[c]) ELSE LetterPiece[c] IN
                 IF a.f >= 1 /\ p # 0 THEN [a EXCEPT !.board[Sq(a.f, a.r)] = p, !.f = @ - 1, !.plus = FALSE] ELSE Fail(a)
            [] OTHER -> Fail(a))
    [] a.sec = 1 ->
         (CASE c = "b" /\ a.side = 0 -> [a EXCEPT !.side = Black]
            [] c = "w" /\ a.side = 0 -> [a EXCEPT !.side = White]
            [] c = " " /\ a.side # 0 -> [a EXCEPT !.sec = 2]
            [] OTHER -> Fail(a))
    [] a.sec = 2 ->
         (CASE c = "-" -> IF a.dash THEN Fail(a) ELSE [a EXCEPT !.dash = TRUE]
            [] IsDigit(c) -> [a EXCEPT !.n = 10 * @ + DigitOf[c]]
            [] IsLetter(c) /\ ~a.dash ->
                 LET p == LetterPiece[c] IN
                 IF KindOf(p) = King THEN Fail(a)
                 ELSE [a EXCEPT !.hands[ColorOf(p)][KindOf(p)] = IF a.n = 0 THEN 1 ELSE a.n, !.n = 0]
            [] c = " " /\ a.n = 0 -> [a EXCEPT !.sec = 3]
            [] OTHER -> Fail(a))
    [] OTHER -> IF IsDigit(c) THEN [a EXCEPT !.ply = 10 * @ + DigitOf[c], !.dash = FALSE] ELSE Fail(a)
ReadSfen(t) ==
  LET a == FoldLeft(LAMBDA x, i : ReadStep(x, Ch(t, i)), Start0, [i \in 1..Len(t) |-> i])
  IN IF a.bad \/ a.sec # 3 THEN [bad |-> TRUE]
     ELSE [board |-> a.board, side |-> a.side, hands |-> a.hands, ply |-> a.ply]
=============================================================================
