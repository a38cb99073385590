------------------------------- MODULE Position -------------------------------
(***************************************************************************)
(* The abstract state of a position and the effect of every operation the  *)
(* crate offers on it.  A state is a record                                *)
(*                                                                         *)
(*   board  [Squares -> OptPieces]  what stands where                      *)
(*   hands  <<black, white>>, each a sequence of 7 counts in 0..255        *)
(*   side   the player to move                                             *)
(*   ply    a 16-bit move number                                           *)
(*   last   packed form of the last accepted move, 0 if there was none     *)
(*                                                                         *)
(* There is deliberately nothing else in it: occupancy sets, per-piece     *)
(* sets and the location of the kings are *functions* of the board (see    *)
(* Views), however the code chooses to cache them.                         *)
(***************************************************************************)
EXTENDS ShogiBase

EmptyHand == <<0, 0, 0, 0, 0, 0, 0>>
EmptyBoard == [s \in Squares |-> 0]

EmptyPosition ==
  [board |-> EmptyBoard, hands |-> <<EmptyHand, EmptyHand>>,
   side |-> Black, ply |-> 1, last |-> 0]

\* Back rank of either side, symmetric, so file order does not matter.
BackRank == <<Lance, Knight, Silver, Gold, King, Gold, Silver, Knight, Lance>>

StartBoard ==
  [s \in Squares |->
     LET f == File(s)
         r == Rank(s)
     IN CASE r = 9 -> Piece(BackRank[f], Black)
          [] r = 1 -> Piece(BackRank[f], White)
          [] r = 7 -> Piece(Pawn, Black)
          [] r = 3 -> Piece(Pawn, White)
          [] r = 8 /\ f = 8 -> Piece(Bishop, Black)
          [] r = 2 /\ f = 2 -> Piece(Bishop, White)
          [] r = 8 /\ f = 2 -> Piece(Rook, Black)
          [] r = 2 /\ f = 8 -> Piece(Rook, White)
          [] OTHER -> 0]

StartPosition == [EmptyPosition EXCEPT !.board = StartBoard]

-----------------------------------------------------------------------------
(* Hands *)
HandCount(h, k) == h[k]                                 \* k \in HandKinds
HandAdded(h, k) == [h EXCEPT ![k] = (@ + 1) % 256]      \* documented to wrap
HandCanRemove(h, k) == IsHandKind(k) /\ h[k] > 0
HandRemoved(h, k) == [h EXCEPT ![k] = @ - 1]

-----------------------------------------------------------------------------
(* Does a move make sense?  (Not: is it legal.)                            *)
NormalMakesSense(st, m) ==
  LET pc  == st.board[m.a]
      tgt == st.board[m.to]
  IN /\ pc # 0
     /\ ColorOf(pc) = st.side
     /\ (m.pro = 1) => PromotePiece(pc) # 0
     /\ tgt # 0 => /\ ColorOf(tgt) # st.side
                   /\ KindOf(tgt) # King      \* a king cannot be taken in hand

DropMakesSense(st, m) ==
  /\ ColorOf(m.a) = st.side
  /\ IsHandKind(KindOf(m.a))
  /\ st.board[m.to] = 0
  /\ st.hands[st.side][KindOf(m.a)] > 0

MakesSense(st, m) ==
  IF m.drop = 1 THEN DropMakesSense(st, m) ELSE NormalMakesSense(st, m)

\* Board and hands after a sensible move.
BoardAfter(st, m) ==
  IF m.drop = 1
  THEN [st.board EXCEPT ![m.to] = m.a]
  ELSE LET pc == st.board[m.a]
       IN [st.board EXCEPT ![m.a] = 0,
                           ![m.to] = IF m.pro = 1 THEN PromotePiece(pc) ELSE pc]

HandsAfter(st, m) ==
  IF m.drop = 1
  THEN [st.hands EXCEPT ![st.side] = HandRemoved(@, KindOf(m.a))]
  ELSE LET tgt == st.board[m.to]
       IN IF tgt = 0 THEN st.hands
          ELSE [st.hands EXCEPT ![st.side] = HandAdded(@, BaseKind(KindOf(tgt)))]

MoveEffect(st, m) ==
  [board |-> BoardAfter(st, m), hands |-> HandsAfter(st, m),
   side |-> Opp(st.side), ply |-> (st.ply + 1) % 65536, last |-> Pack(m)]

\* Making a move, sensible or not.  A move that makes no sense changes nothing.
MakeMove(st, m) == IF MakesSense(st, m) THEN MoveEffect(st, m) ELSE st

-----------------------------------------------------------------------------
(* Editing *)
SetPiece(st, s, p) == [st EXCEPT !.board[s] = p]
SetSide(st, c) == [st EXCEPT !.side = c]
SetPlyOk(n) == n # 0
SetPly(st, n) == IF SetPlyOk(n) THEN [st EXCEPT !.ply = n] ELSE st
SetHand(st, c, h) == [st EXCEPT !.hands[c] = h]

-----------------------------------------------------------------------------
(* Views: what the set-valued and locating queries must answer.            *)
PieceSet(b, p) == {s \in Squares : b[s] = p}
KindSet(b, k) == {s \in Squares : b[s] # 0 /\ KindOf(b[s]) = k}
PlayerSet(b, c) == {s \in Squares : b[s] # 0 /\ ColorOf(b[s]) = c}
Occupied(b) == {s \in Squares : b[s] # 0}
Vacant(b) == {s \in Squares : b[s] = 0}
\* The king locator: where the king is, nowhere if there is none, and one of
\* them if an edit has put several there.
KingAnswers(b, c) == LET ks == PieceSet(b, Piece(King, c))
                     IN IF ks = {} THEN {0} ELSE ks

-----------------------------------------------------------------------------
(* Material: how many pieces of a base kind are in play, on the board (on   *)
(* either side, promoted or not) and in the hands.                          *)
Material(st, k) ==
  Cardinality({s \in Squares : st.board[s] # 0 /\ BaseKind(KindOf(st.board[s])) = k})
  + (IF IsHandKind(k) THEN st.hands[1][k] + st.hands[2][k] ELSE 0)
MaterialVector(st) == [k \in 1..8 |-> Material(st, k)]
=============================================================================
