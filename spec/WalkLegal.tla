------------------------------ MODULE WalkLegal ------------------------------
(***************************************************************************)
(* Behaviours of Legality.tla, to be carried out by the code: a position    *)
(* and the answers a checker is made to give are chosen, and what the       *)
(* default methods must answer and do follows.                              *)
(* A row: operation (0 start, 1 all queries, 2 make the move), the move     *)
(* (four numbers), the checker's status, answer, quick answer, how many     *)
(* legal moves; then what is expected: answer, quick answer, how many;      *)
(* then the position afterwards: board, hands, side, number, last move.     *)
(***************************************************************************)
EXTENDS Legality, Randomization, Json, IOUtils

Length == 40
VARIABLES st, trail
vars == <<st, trail>>

Some(n, S) == IF S = {} THEN {} ELSE RandomSubset(Min2(n, Cardinality(S)), S)
Row(op, m, c, want, new) == <<op, m.drop, m.a, m.to, m.pro>> \o c \o want
                            \o new.board \o new.hands[1] \o new.hands[2] \o <<new.side, new.ply, new.last>>
Null == NormalMove(1, 1, 0)
Init == /\ st \in {StartPosition, EmptyPosition}
        /\ trail = <<Row(0, Null, <<4, 0, 1, 0>>, <<IF st = StartPosition THEN 1 ELSE 0, 0, 0>>, st)>>

\* Only consistent checkers: what makes no sense is not called legal.
Answers(m) == IF MakesSense(st, m) THEN {0} \cup Reasons ELSE Reasons
Want(c) == <<IsLegal(c[1], c[2]), IsLegalLite(c[1], c[3]), Len(AllLegalMoves(c[1], [i \in 1..c[4] |-> i]))>>
Ask(m) == \E s \in Some(2, Statuses) \cup {InProgress}, a \in ({0, 6} \cap Answers(m)) \cup Some(2, Answers(m)) :
          \E q \in Some(1, {0, 1}), n \in Some(1, {0, 1, 2, 100, 255, 256, 593, 700}) :
            LET c == <<s, a, q, n>> IN
            \/ st' = st /\ trail' = Append(trail, Row(1, m, c, Want(c), st))
            \/ LET new == MakeLegalMove(st, m, s, a) IN st' = new /\ trail' = Append(trail, Row(2, m, c, Want(c), new))

Own == {s \in Squares : st.board[s] # 0 /\ ColorOf(st.board[s]) = st.side}
InHand == {k \in HandKinds : st.hands[st.side][k] > 0}
Move1 == \/ \E a \in Some(2, Own), t \in Some(2, Squares), q \in Some(1, {0, 1}) : Ask(NormalMove(a, t, q))
         \/ \E k \in Some(1, InHand), t \in Some(2, Squares) : Ask(DropMove(Piece(k, st.side), t))
         \/ \E a \in Some(1, Squares), t \in Some(1, Squares) : Ask(NormalMove(a, t, 0))
Last == LET c == <<4, 7, 1, 3>> IN UNCHANGED st /\ trail' = Append(trail, Row(1, Null, c, Want(c), st))
Next == IF Len(trail) = Length THEN Last ELSE Len(trail) < Length /\ Move1
Spec == Init /\ [][Next]_vars
Emit == Len(trail) > Length =>
          Serialize(ToJson(trail) \o "\n", IOEnv.OUT,
                    [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
