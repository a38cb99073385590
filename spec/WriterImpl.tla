------------------------------ MODULE WriterImpl ------------------------------
(***************************************************************************)
(* The SFEN writer as the code runs it: a cursor over ranks and files that  *)
(* counts vacant squares, numbers written digit by digit, every write       *)
(* offered to a sink that may refuse it, which must end the run at once.    *)
(* Refinement: a run that ends well has written exactly Notation!SfenText;  *)
(* one that does not was refused a write, and offered nothing after it.     *)
(*                                                                          *)
(* Variants other than "code" are broken:                                   *)
(*   "runlost"    the refusal of the run at the end of a rank goes unheeded *)
(*   "digitlost"  the refusal of the first of two digits goes unheeded      *)
(*   "sidelost"   the refusal of the side to move goes unheeded             *)
(*   "norestart"  the run is not reset after it is written                  *)
(*   "noend"      the run at the end of a rank is not written               *)
(*   "dash"       hands are taken for empty when their counts add up to 0   *)
(*                modulo 256                                                *)
(*   "inner"      zeros inside the move number are left out                 *)
(*   "one"        a count of 1 is written                                   *)
(*   "mirror"     files are written from 1 to 9                             *)
(***************************************************************************)
EXTENDS Notation
CONSTANTS Masks, Ranks, Counts, Plies, Variant

VARIABLES st, full,   \* the position and its text: they do not change
          r,          \* the registers of the writer
          got, refused, after, res
vars == <<st, full, r, got, refused, after, res>>

Blank == [s \in Squares |-> 0]
NoHand == [k \in 1..7 |-> 0]
Pos(b, h, c, n) == [board |-> b, hands |-> h, side |-> c, ply |-> n, last |-> 0]
\* Pieces on the files of a mask (bit f-1 for file f) of one rank, promoted and not, of either side
Some(f) == CASE f % 4 = 0 -> 1 [] f % 4 = 1 -> 30 [] f % 4 = 2 -> 9 [] OTHER -> 24
Powers == <<1, 2, 4, 8, 16, 32, 64, 128, 256>>
MaskBoard(m, q) == [s \in Squares |-> IF Rank(s) = q /\ (m \div Powers[File(s)]) % 2 = 1 THEN Some(File(s)) ELSE 0]
Positions ==
  {Pos(MaskBoard(m, q), <<NoHand, NoHand>>, 1 + (m % 2), 1 + m) : m \in Masks, q \in Ranks}
  \cup {Pos(Blank, [x \in 1..2 |-> IF x = c THEN [NoHand EXCEPT ![k] = n] ELSE NoHand], c, 2) : k \in 1..7, c \in 1..2, n \in Counts}
  \cup {Pos(Blank, <<[NoHand EXCEPT ![k] = n, ![1] = 256 - n], [x \in 1..7 |-> x]>>, 1, 3) : k \in 2..7, n \in Counts \ {0}}
  \cup {Pos(Blank, <<[NoHand EXCEPT ![k] = n, ![1] = 256 - n], NoHand>>, 1, 3) : k \in 2..7, n \in Counts \ {0, 1}}
  \cup {Pos(Blank, <<NoHand, NoHand>>, 2, n) : n \in Plies}

Regs == [pc |-> "cell", i |-> 0, j |-> 0, vac |-> 0, dig |-> <<>>, c |-> 1, k |-> 7, val |-> 0, base |-> 5, shown |-> FALSE]
Init == /\ st \in Positions /\ full = SfenText(st)
        /\ r = Regs /\ got = "" /\ refused = FALSE /\ after = FALSE /\ res = "running"

\* A write: accepted, or refused; `heed` says whether the code looks at the outcome.
Write(text, then, heed) ==
  /\ after' = (after \/ refused)
  /\ \/ got' = got \o text /\ r' = then /\ UNCHANGED <<refused, res>>
     \/ /\ refused' = TRUE /\ UNCHANGED got
        /\ IF heed THEN res' = "err" /\ UNCHANGED r ELSE r' = then /\ UNCHANGED res
  /\ UNCHANGED <<st, full>>
Quietly(then) == r' = then /\ UNCHANGED <<st, full, got, refused, after, res>>
At(p) == res = "running" /\ r.pc = p

Here == st.board[(IF Variant = "mirror" THEN 9 * r.j ELSE 9 * (8 - r.j)) + r.i + 1]
AfterRun == [r EXCEPT !.vac = IF Variant = "norestart" THEN @ ELSE 0]
NextCell(x) == IF r.j = 8 THEN [x EXCEPT !.pc = "end of rank"] ELSE [x EXCEPT !.j = @ + 1, !.pc = "cell"]
Cell ==
  /\ At("cell")
  /\ IF Here = 0 THEN Quietly(NextCell([r EXCEPT !.vac = @ + 1]))
     ELSE IF r.vac > 0 THEN Write(Digits[r.vac], [AfterRun EXCEPT !.pc = "piece"], TRUE)
     ELSE Quietly([r EXCEPT !.pc = "piece"])
Man ==
  /\ At("piece")
  /\ IF UnpromotePiece(Here) # 0 THEN Write("+", [r EXCEPT !.pc = "letter"], TRUE)
     ELSE Quietly([r EXCEPT !.pc = "letter"])
Letter == At("letter") /\ Write(PieceText(Piece(BaseKind(KindOf(Here)), ColorOf(Here))), NextCell(r), TRUE)
EndOfRank ==
  /\ At("end of rank")
  /\ IF r.vac > 0 /\ Variant # "noend" THEN Write(Digits[r.vac], [r EXCEPT !.vac = 0, !.pc = "slash"], Variant # "runlost")
     ELSE Quietly([r EXCEPT !.vac = 0, !.pc = "slash"])
Slash ==
  /\ At("slash")
  /\ IF r.i < 8 THEN Write("/", [r EXCEPT !.i = @ + 1, !.j = 0, !.pc = "cell"], TRUE)
     ELSE Write(" ", [r EXCEPT !.pc = "side"], TRUE)
Side == At("side") /\ Write(IF st.side = Black THEN "b" ELSE "w", [r EXCEPT !.pc = "space"], Variant # "sidelost")
Space == At("space") /\ Write(" ", [r EXCEPT !.pc = "hands"], TRUE)

RECURSIVE Total(_, _)
Total(h, k) == IF k = 0 THEN 0 ELSE h[k] + Total(h, k - 1)
BothEmpty == IF Variant = "dash" THEN Total(st.hands[1], 7) % 256 = 0 /\ Total(st.hands[2], 7) % 256 = 0
             ELSE \A c \in 1..2, k \in 1..7 : st.hands[c][k] = 0
InHands ==
  /\ At("hands")
  /\ IF BothEmpty THEN Write("-", [r EXCEPT !.pc = "last space"], TRUE)
     ELSE Quietly([r EXCEPT !.pc = "count"])
\* write_u8
DigitsOf(n) == IF n <= 9 THEN <<n>> ELSE IF n <= 99 THEN <<n \div 10, n % 10>> ELSE <<n \div 100, (n \div 10) % 10, n % 10>>
NextKind == IF r.k > 1 THEN [r EXCEPT !.k = @ - 1, !.pc = "count"]
            ELSE IF r.c = 1 THEN [r EXCEPT !.c = 2, !.k = 7, !.pc = "count"]
            ELSE [r EXCEPT !.pc = "last space"]
Count ==
  /\ At("count")
  /\ LET n == st.hands[r.c][r.k] IN
     IF n = 0 THEN Quietly(NextKind)
     ELSE IF n >= 2 \/ Variant = "one" THEN Quietly([r EXCEPT !.dig = DigitsOf(n), !.pc = "digits"])
     ELSE Quietly([r EXCEPT !.pc = "hand letter"])
Figure(d) == IF d = 0 THEN "0" ELSE Digits[d]
Figures ==
  /\ At("digits")
  /\ IF r.dig = <<>> THEN Quietly([r EXCEPT !.pc = "hand letter"])
     ELSE Write(Figure(Head(r.dig)), [r EXCEPT !.dig = Tail(@)], ~(Variant = "digitlost" /\ Len(r.dig) = 2))
HandLetter == At("hand letter") /\ Write(PieceText(Piece(r.k, r.c)), NextKind, TRUE)
LastSpace == At("last space") /\ Write(" ", [r EXCEPT !.pc = "ply", !.val = st.ply], TRUE)
\* write_u16
Bases == <<1, 10, 100, 1000, 10000>>
Ply ==
  /\ At("ply")
  /\ IF st.ply = 0 THEN Write("0", [r EXCEPT !.pc = "end"], TRUE)
     ELSE IF r.base = 0 THEN Quietly([r EXCEPT !.pc = "end"])
     ELSE LET d == r.val \div Bases[r.base]
              then == [r EXCEPT !.val = @ - d * Bases[r.base], !.base = @ - 1]
          IN IF d # 0 \/ (r.shown /\ Variant # "inner") THEN Write(Figure(d), [then EXCEPT !.shown = TRUE], TRUE)
             ELSE Quietly(then)
End == At("end") /\ res' = "ok" /\ UNCHANGED <<st, full, r, got, refused, after>>

Next == Cell \/ Man \/ Letter \/ EndOfRank \/ Slash \/ Side \/ Space \/ InHands \/ Count \/ Figures \/ HandLetter
        \/ LastSpace \/ Ply \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
Prefix == Len(got) <= Len(full) /\ SubSeq(full, 1, Len(got)) = got
Complete == res = "ok" => got = full
Reported == res # "running" => (res = "err") = refused
Stopped == ~after
\* one digit per run: a run never exceeds nine, and no rank but through its end
Runs == r.vac \in 0..9
ReadsBack == res = "ok" => ReadSfen(got) = [board |-> st.board, side |-> st.side, hands |-> st.hands, ply |-> st.ply]
\* 129 characters of board need 40 pieces; what holds for every position is the length of each part
Ends == <>(res # "running")
=============================================================================
