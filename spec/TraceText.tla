------------------------------ MODULE TraceText ------------------------------
(***************************************************************************)
(* Validation of text produced by the code, from values given by number,   *)
(* against Notation.                                                       *)
(***************************************************************************)
EXTENDS Notation, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP
VARIABLE l
F(cond, name) == IF cond THEN {} ELSE {name}

State(ev) == [board |-> ev.b, hands |-> ev.h, side |-> ev.c, ply |-> ev.n]
Read(st) == [board |-> st.board, side |-> st.side, hands |-> st.hands, ply |-> st.ply]
Zero7 == <<0, 0, 0, 0, 0, 0, 0>>
NoHands == <<Zero7, Zero7>>
Blank == [s \in 1..81 |-> 0]
St(b, h, c, n) == [board |-> b, hands |-> h, side |-> c, ply |-> n]

\* One text, or all the ways of obtaining it.
AllAre(v, t) == \A i \in DOMAIN v : v[i] = t

BadSfen(ev) ==
  CASE ev.f = "sfen" ->
         F(AllAre(ev.t, SfenText(State(ev))), "SFEN text")
         \cup F(Read(State(ev)) = ReadSfen(ev.t[1]), "SFEN read back")
    [] ev.f = "sfen_pc" ->
         F(\A i \in 1..81 : ev.v[i] = SfenText(St([Blank EXCEPT ![i] = ev.p], NoHands, Black, 1)), "SFEN of one piece")
    [] ev.f = "sfen_vac" ->
         F(\A i \in 1..512 :
             LET b == [s \in 1..81 |-> IF Rank(s) = ev.r /\ ((i - 1) \div (2 ^ (File(s) - 1))) % 2 = 1 THEN ev.q[File(s)] ELSE 0]
             IN ev.v[i] = SfenText(St(b, NoHands, White, 2)), "SFEN of vacant runs")
    [] ev.f = "sfen_hand" ->
         LET pre == BoardText(Blank) \o " b " IN
         F(\A i \in 1..256 :
             LET h == [[ev.h EXCEPT ![ev.c] = [@ EXCEPT ![ev.k] = i - 1]] EXCEPT ![3 - ev.c] = @]
             IN ev.v[i] = pre \o HandsText(h) \o " 1", "SFEN of hands")
    [] ev.f = "sfen_ply" ->
         LET pre == BoardText(Blank) \o " b - " IN
         F(\A i \in DOMAIN ev.v : ev.v[i] = pre \o ToString(ev.lo + i - 1), "SFEN of the move number")

\* SFEN written into a guarded buffer: `lo`/`hi` say whether the guard before the buffer
\* and after the NUL is intact, `start` that the position came from the starting position.
LongestSfen == 139
BadBuffer(ev) ==
  F(AllAre(ev.t, SfenText(State(ev))), "SFEN text in the buffer")
  \cup F(ev.nul = 1, "the text is not terminated")
  \cup F(ev.lo = 1, "something was written before the buffer")
  \cup F(ev.hi = 1, "something was written beyond the NUL")
  \cup F(ev.start = 1 => Len(ev.t[1]) + 1 <= LongestSfen, "longer than documented")

BadUsi(ev) ==
  CASE ev.f = "usi_sq" -> F(AllAre(ev.t, SquareText(ev.s)), "text of a square")
    [] ev.f = "usi_kind" -> F(AllAre(ev.t, KindText[ev.k]), "text of a kind")
    [] ev.f = "usi_piece" -> F(AllAre(ev.t, PieceText(ev.p)), "text of a piece")
    [] ev.f = "usi_color" -> F(AllAre(ev.t, ColorText(ev.c)), "text of a color")
    [] ev.f = "usi_hands" -> F(AllAre(ev.t, HandsText(ev.h)), "text of hands")
    [] ev.f = "usi_count" ->
         F(\A i \in 1..256 : ev.v[i] = HandsText([ev.h EXCEPT ![ev.c] = [@ EXCEPT ![ev.k] = i - 1]]), "text of hands")
    [] ev.f = "usi_mv" ->
         F(\A i \in 1..81 :
             LET m == [drop |-> ev.d, a |-> ev.a, to |-> i, pro |-> ev.p]
                 t == MoveText(m)
             IN ev.v[i] = t /\ ev.w[i] = t, "text of a move")

Init == l = 1
Is(S) == l <= Len(Trace) /\ Trace[l].f \in S
Step(bad) == IF bad = {} THEN l' = l + 1 ELSE PrintT(<<"NONCONFORM", l, bad>>) /\ FALSE
Sfen == Is({"sfen", "sfen_pc", "sfen_vac", "sfen_hand", "sfen_ply"}) /\ Step(BadSfen(Trace[l]))
Usi  == Is({"usi_sq", "usi_kind", "usi_piece", "usi_color", "usi_hands", "usi_count", "usi_mv"}) /\ Step(BadUsi(Trace[l]))
Buffer == Is({"csfen"}) /\ Step(BadBuffer(Trace[l]))
Next == Sfen \/ Usi \/ Buffer
Spec == Init /\ [][Next]_l
View == l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
