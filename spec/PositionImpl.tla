----------------------------- MODULE PositionImpl -----------------------------
(***************************************************************************)
(* A position as the code keeps it: the board and, beside it, two sets of   *)
(* squares by player, fourteen by kind, and the squares of the two kings,   *)
(* all kept up to date incrementally by one editing primitive; moves made   *)
(* by a sequence of assignments with early exits.  Checked against          *)
(* Position.tla, of which it must be a refinement: every operation has the  *)
(* effect specified there, and every cached view equals the function of the *)
(* board that Position.tla says it is.                                      *)
(*                                                                          *)
(* A whole board is too much to enumerate; Window is the set of squares the *)
(* operations may name, Ks the kinds in play, Most the greatest count of a  *)
(* hand.  Starting from an empty board, edits make every position of the    *)
(* window.                                                                  *)
(*                                                                          *)
(* Variant: "code" is the code. Each of the others is broken in one way,    *)
(* and must violate something:                                              *)
(*   "staleking"   a removed king is still located where it was (the code   *)
(*                 as it was before it was repaired)                        *)
(*   "onecolor"    placing a piece clears only its own player's set         *)
(*   "kindleak"    the kind set of the replaced piece is not cleared        *)
(*   "handfirst"   a drop leaves the hand before the square is looked at    *)
(*   "captures"    a capture is taken in hand before its other conditions   *)
(*   "turnfirst"   the turn passes before the move is found sensible        *)
(*   "keepspro"    a captured promoted piece is refused by the hand, late   *)
(***************************************************************************)
EXTENDS Position
CONSTANTS Window, Ks, Most, Variant, Depth

VARIABLES side, ply, hands, board, pbb, kbb, last, king,
          done \* the operation just carried out, with its outcome
state == <<side, ply, hands, board, pbb, kbb, last, king>>
vars == <<state, done>>

Ps == {Piece(k, c) : k \in Ks, c \in Colors}
Abs == [board |-> [s \in Squares |-> IF s \in Window THEN board[s] ELSE 0],
        hands |-> hands, side |-> side, ply |-> ply, last |-> last]

Init ==
  /\ side = Black /\ ply = 1 /\ last = 0
  /\ hands = <<EmptyHand, EmptyHand>>
  /\ board = [s \in Window |-> 0]
  /\ pbb = <<{}, {}>>
  /\ kbb = [k \in Kinds |-> {}]
  /\ king = <<0, 0>>
  /\ done = <<"start">>

Least(S) == IF S = {} THEN 0 ELSE CHOOSE s \in S : \A t \in S : s <= t

\* The editing primitive, on a record of the fields it touches.
Put(x, s, p) ==
  LET old == x.board[s]
      b == [x.board EXCEPT ![s] = p]
      cleared == IF Variant = "onecolor" /\ p # 0
                 THEN [x.pbb EXCEPT ![ColorOf(p)] = @ \ {s}]
                 ELSE <<x.pbb[1] \ {s}, x.pbb[2] \ {s}>>
      pb == IF p = 0 THEN cleared ELSE [cleared EXCEPT ![ColorOf(p)] = @ \cup {s}]
      k1 == IF old = 0 \/ Variant = "kindleak" THEN x.kbb ELSE [x.kbb EXCEPT ![KindOf(old)] = @ \ {s}]
      k2 == IF p = 0 THEN k1 ELSE [k1 EXCEPT ![KindOf(p)] = @ \cup {s}]
      at(c) == IF Variant = "staleking"
               THEN IF p = Piece(King, c) THEN s ELSE x.king[c]
               ELSE IF old = Piece(King, c) \/ p = Piece(King, c)
                    THEN Least(k2[King] \cap pb[c]) ELSE x.king[c]
  IN [x EXCEPT !.board = b, !.pbb = pb, !.kbb = k2, !.king = <<at(1), at(2)>>]

Fields == [side |-> side, ply |-> ply, hands |-> hands, board |-> board, pbb |-> pbb, kbb |-> kbb,
           last |-> last, king |-> king]
Becomes(x) ==
  /\ side' = x.side /\ ply' = x.ply /\ hands' = x.hands /\ board' = x.board
  /\ pbb' = x.pbb /\ kbb' = x.kbb /\ last' = x.last /\ king' = x.king

\* Making a move, one assignment or early exit after the other: <<made?, fields>>.
Turn(x, m) == [x EXCEPT !.last = Pack(m), !.side = Opp(@), !.ply = (@ + 1) % 65536]
Early(x, m) == IF Variant = "turnfirst" THEN Turn(x, m) ELSE x
NormalRun(x, m) ==
  LET pc == x.board[m.a]
      enemy == x.board[m.to]
  IN IF pc = 0 THEN <<FALSE, x>>
     ELSE IF ColorOf(pc) # x.side THEN <<FALSE, x>>
     ELSE IF m.pro = 1 /\ PromotePiece(pc) = 0 /\ Variant # "captures" THEN <<FALSE, x>>
     ELSE IF enemy # 0 /\ ColorOf(enemy) = ColorOf(pc) THEN <<FALSE, Early(x, m)>>
     ELSE LET k == IF enemy = 0 THEN 0
                   ELSE IF Variant = "keepspro" THEN KindOf(enemy) ELSE BaseKind(KindOf(enemy))
          IN IF enemy # 0 /\ ~IsHandKind(k) THEN <<FALSE, Early(x, m)>>
             ELSE LET x1 == IF enemy = 0 THEN x ELSE [x EXCEPT !.hands[ColorOf(pc)] = HandAdded(@, k)]
                  IN IF m.pro = 1 /\ PromotePiece(pc) = 0 THEN <<FALSE, x1>>
                     ELSE LET x2 == Put(x1, m.a, 0)
                              x3 == Put(x2, m.to, IF m.pro = 1 THEN PromotePiece(pc) ELSE pc)
                          IN <<TRUE, Turn(x3, m)>>
DropRun(x, m) ==
  LET k == KindOf(m.a)
      c == ColorOf(m.a)
      can == HandCanRemove(x.hands[c], k)
      taken == IF can THEN [x EXCEPT !.hands[c] = HandRemoved(@, k)] ELSE x
  IN IF c # x.side THEN <<FALSE, x>>
     ELSE IF UnpromoteKind(k) # 0 THEN <<FALSE, x>>
     ELSE IF Variant = "handfirst"
          THEN IF ~can \/ x.board[m.to] # 0 THEN <<FALSE, taken>> ELSE <<TRUE, Turn(Put(taken, m.to, m.a), m)>>
     ELSE IF x.board[m.to] # 0 THEN <<FALSE, x>>
     ELSE IF ~can THEN <<FALSE, Early(x, m)>>
     ELSE <<TRUE, Turn(Put(taken, m.to, m.a), m)>>
Run(x, m) == IF m.drop = 1 THEN DropRun(x, m) ELSE NormalRun(x, m)

Tried == {NormalMove(a, t, q) : a \in Window, t \in Window, q \in {0, 1}} \cup {DropMove(p, t) : p \in Ps, t \in Window}
Moved(m) ==
  LET r == Run(Fields, m) IN Becomes(r[2]) /\ done' = <<"move", m, r[1]>>
Edited(s, p) == Becomes(Put(Fields, s, p)) /\ done' = <<"edit", s, p>>
Sided(c) == Becomes([Fields EXCEPT !.side = c]) /\ done' = <<"side", c>>
Counted(n) ==
  IF n = 0 THEN Becomes(Fields) /\ done' = <<"ply", n, FALSE>>
  ELSE Becomes([Fields EXCEPT !.ply = n]) /\ done' = <<"ply", n, TRUE>>
Handed(c, k, n) == Becomes([Fields EXCEPT !.hands[c][k] = n]) /\ done' = <<"hand", c, k, n>>

MakeMoves == \E m \in Tried : Moved(m)
Edits == \E s \in Window, p \in Ps \cup {0} : Edited(s, p)
Sides == \E c \in Colors : Sided(c)
Counts == \E n \in {0, 1, 65535} : Counted(n)
HandEdits == \E c \in Colors, k \in Ks \cap HandKinds, n \in {0, 1, Most} : Handed(c, k, n)
Next == MakeMoves \/ Edits \/ Sides \/ Counts \/ HandEdits
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* The cached views are the functions of the board they stand for. *)
B == Abs.board
ViewPlayers == \A c \in Colors : pbb[c] = PlayerSet(B, c)
ViewKinds == \A k \in Kinds : kbb[k] = KindSet(B, k)
ViewPieces == \A p \in Ps : kbb[KindOf(p)] \cap pbb[ColorOf(p)] = PieceSet(B, p)
ViewOccupied == pbb[1] \cup pbb[2] = Occupied(B)
ViewKings == \A c \in Colors : king[c] \in KingAnswers(B, c)

\* Every step has the specified effect and outcome.
Effect ==
  [][CASE done'[1] = "move" -> /\ done'[3] = MakesSense(Abs, done'[2])
                               /\ Abs' = MakeMove(Abs, done'[2])
       [] done'[1] = "edit" -> Abs' = SetPiece(Abs, done'[2], done'[3])
       [] done'[1] = "side" -> Abs' = SetSide(Abs, done'[2])
       [] done'[1] = "ply" -> done'[3] = SetPlyOk(done'[2]) /\ Abs' = SetPly(Abs, done'[2])
       [] done'[1] = "hand" -> Abs' = SetHand(Abs, done'[2], [hands[done'[2]] EXCEPT ![done'[3]] = done'[4]])
    ]_vars
\* A rejected move changes nothing, caches included.
Rejected == [][done'[1] = "move" /\ ~done'[3] => state' = state]_vars
\* Moves keep the material (while no count of a hand wraps).
Conserved ==
  [][done'[1] = "move" /\ done'[3] /\ (\A c \in Colors, k \in HandKinds : hands[c][k] < 255)
       => MaterialVector(Abs') = MaterialVector(Abs)]_vars

-----------------------------------------------------------------------------
Bound == /\ \A c \in Colors, k \in HandKinds : hands[c][k] \in 0..Most \cup {255}
         /\ ply \in 0..Depth \cup {65535}
\* The last move and the history of operations do not influence what follows.
View == <<side, IF ply \in {0, 1, 65535} THEN ply ELSE 2, hands, board, pbb, kbb, king>>
=============================================================================
