--------------------------------- MODULE Walk ---------------------------------
(***************************************************************************)
(* Behaviours of Position.tla to be replayed in the code: the specification *)
(* chooses the operations and says what must be observed after each.  Run   *)
(* with -simulate; every finished walk is appended to the file OUT.         *)
(* The choices are drawn from random subsets, with sensible moves likely.   *)
(***************************************************************************)
EXTENDS Position, Randomization, Json, IOUtils

Length == 60
VARIABLES st, trail
vars == <<st, trail>>

Some(n, S) == IF S = {} THEN {} ELSE RandomSubset(Min2(n, Cardinality(S)), S)
Own == {s \in Squares : st.board[s] # 0 /\ ColorOf(st.board[s]) = st.side}
Theirs == {s \in Squares : st.board[s] # 0 /\ ColorOf(st.board[s]) # st.side}
Empty == {s \in Squares : st.board[s] = 0}
InHand == {k \in HandKinds : st.hands[st.side][k] > 0}

Entry(op, ok, new) == [op |-> op, ok |-> IF ok THEN 1 ELSE 0, b |-> new.board, h |-> new.hands,
                       c |-> new.side, n |-> new.ply, l |-> new.last]
Do(op, ok, new) == st' = new /\ trail' = Append(trail, Entry(op, ok, new))
Try(m) == Do(<<1, m.drop, m.a, m.to, m.pro>>, MakesSense(st, m), MakeMove(st, m))

Capture == \E a \in Some(2, Own), t \in Some(2, Theirs), q \in {0, 1} : Try(NormalMove(a, t, q))
Step == \E a \in Some(2, Own), t \in Some(2, Empty), q \in {0, 1} : Try(NormalMove(a, t, q))
PutBack == \E k \in Some(2, InHand), t \in Some(2, Empty) : Try(DropMove(Piece(k, st.side), t))
Anything == \E a \in Some(2, Squares), t \in Some(2, Squares), q \in {0, 1} : Try(NormalMove(a, t, q))
Blocked == \E a \in Some(2, Own), t \in Some(1, Own) : Try(NormalMove(a, t, 0))
AnyDrop == \E p \in Some(2, Pieces), t \in Some(2, Squares) : Try(DropMove(p, t))
Edit == \E s \in Some(2, Squares), p \in Some(1, OptPieces) : Do(<<2, s, p>>, TRUE, SetPiece(st, s, p))
TurnTo == \E c \in Colors : Do(<<3, c>>, TRUE, SetSide(st, c))
Number == \E n \in Some(1, {0, 1, 255, 256, 32767, 65534, 65535}) : Do(<<4, n>>, SetPlyOk(n), SetPly(st, n))
Hold == \E c \in Some(1, Colors), k \in Some(1, HandKinds), n \in Some(1, {0, 1, 2, 18, 254, 255}) :
          LET h == [st.hands[c] EXCEPT ![k] = n] IN Do(<<5, c>> \o h, TRUE, SetHand(st, c, h))

Init == st \in {StartPosition, EmptyPosition} /\ trail = <<Entry(<<0, IF st = StartPosition THEN 1 ELSE 0>>, TRUE, st)>>
\* With Plain, only moves: the history stays a game.
Plain == IOEnv.PLAIN = "1"
Last == \E a \in Some(1, Squares), t \in Some(1, Squares) : Try(NormalMove(a, t, 0))
Next == \/ Len(trail) = Length /\ Last
        \/ /\ Len(trail) < Length
           /\ \/ Capture \/ Step \/ PutBack \/ Anything \/ Blocked \/ AnyDrop
              \/ (~Plain /\ (Edit \/ TurnTo \/ Number \/ Hold))
Spec == Init /\ [][Next]_vars
Emit == Len(trail) > Length =>
          Serialize(ToJson(trail) \o "\n", IOEnv.OUT,
                    [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
