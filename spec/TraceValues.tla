----------------------------- MODULE TraceValues -----------------------------
(***************************************************************************)
(* Validation of complete tables of the value types' functions against     *)
(* ShogiBase.  Records are independent of each other; a behaviour is one   *)
(* pass over them.  The same records come from the Rust driver and from    *)
(* the C driver (there with fewer members).                                *)
(***************************************************************************)
EXTENDS ShogiBase, Json, IOUtils, SequencesExt

Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP
VARIABLE l
F(cond, name) == IF cond THEN {} ELSE {name}
Has(ev, n) == n \in DOMAIN ev
\* Judged only where the record has the member.
If(ev, n, v, name) == IF n \in DOMAIN ev THEN F(ev[n] = v, name) ELSE {}

KindNames == <<"Pawn", "Lance", "Knight", "Silver", "Gold", "Bishop", "Rook", "King",
               "ProPawn", "ProLance", "ProKnight", "ProSilver", "ProBishop", "ProRook">>
ColorNames == <<"Black", "White">>
NewSquares == {<<f, r, Sq(f, r)>> : f \in 1..9, r \in 1..9}
NewRelSquares(c) == {<<RelFile(s, c), RelRank(s, c), s>> : s \in Squares}
ShiftsOf(s) == {<<File(t) - File(s), Rank(t) - Rank(s), t>> : t \in Squares}

BadSquare(ev) ==
  CASE ev.f = "sq_from" -> F(\A x \in 0..255 : ev.v[x + 1] = IF x \in Squares THEN x ELSE 0, "square from a number")
    [] ev.f = "sq_fromu" -> F(ev.v = [x \in 1..81 |-> x], "square from a number, unchecked")
    [] ev.f = "sq_new" -> F(Range(ev.v) = NewSquares /\ Len(ev.v) = 81, "square from file and rank")
    [] ev.f = "sq_newrel" -> F(Range(ev.v) = NewRelSquares(ev.c) /\ Len(ev.v) = 81, "square from relative file and rank")
    [] ev.f = "sq" ->
         LET s == ev.s IN
         F(ev.file = File(s), "file") \cup F(ev.rank = Rank(s), "rank") \cup F(ev.index = s, "index")
         \cup If(ev, "ai", s - 1, "array index")
         \cup F(ev.rf = <<RelFile(s, Black), RelFile(s, White)>>, "relative file")
         \cup F(ev.rr = <<RelRank(s, Black), RelRank(s, White)>>, "relative rank")
         \cup F(ev.flip = FlipSq(s), "flip")
         \cup If(ev, "opt", s, "optional square") \cup If(ev, "back", s, "optional square and back")
    [] ev.f = "sq_none" -> F(ev.opt = 0 /\ ev.back = 0, "no square")
    [] ev.f = "sq_shift" -> F(Range(ev.v) = ShiftsOf(ev.s) /\ Len(ev.v) = 81 /\ ev.none = 65536 - 81, "shifted square")
    [] ev.f = "sq_all" -> F(ev.v = [x \in 1..81 |-> x] /\ ev.w = ev.v /\ ev.num = 81, "enumeration of squares")
                          \cup F(ev.lo <= 81 /\ (ev.hi = -1 \/ ev.hi >= 81), "size hint of the enumeration")
    [] ev.f = "sq_const" -> F(ev.v = <<Sq(ev.file, ev.rank), Sq(ev.file, ev.rank)>>, "named square")

BadPiece(ev) ==
  CASE ev.f = "color" ->
         LET c == CHOOSE c \in Colors : ColorNames[c] = ev.n IN
         F(ev.repr = c, "number of a color") \cup F(ev.flip = Opp(c), "other color")
         \cup If(ev, "ai", c - 1, "array index of a color")
    [] ev.f = "color_all" -> F(ev.v = <<Black, White>> /\ ev.num = 2, "enumeration of colors")
    [] ev.f = "kind" ->
         LET k == CHOOSE k \in Kinds : KindNames[k] = ev.n IN
         F(ev.repr = k, "number of a kind")
         \cup F(ev.pro = PromoteKind(k), "promotion of a kind") \cup F(ev.unpro = UnpromoteKind(k), "unpromotion of a kind")
         \cup If(ev, "ai", k - 1, "array index of a kind") \cup If(ev, "oai", k, "optional array index of a kind")
         \cup If(ev, "opt", k, "optional kind") \cup If(ev, "back", k, "optional kind and back")
    [] ev.f = "kind_none" -> F(ev.oai = 0, "array index of no kind") \cup F(ev.opt = 0 /\ ev.back = 0, "no kind")
    [] ev.f = "kind_from" -> F(\A x \in 0..255 : ev.v[x + 1] = IF x \in Kinds THEN x ELSE 0, "kind from a number")
    [] ev.f = "kind_fromu" -> F(ev.v = [x \in Kinds |-> x], "kind from a number, unchecked")
    [] ev.f = "kind_all" -> F(ev.v = [x \in Kinds |-> x] /\ ev.num = 14 /\ ev.onum = 15, "enumeration of kinds")
    [] ev.f = "piece" ->
         LET p == Piece(ev.k, ev.c) IN
         F(ev.repr = p, "number of a piece") \cup If(ev, "raw", p, "representation of a piece")
         \cup If(ev, "parts", <<ev.k, ev.c>>, "parts of a piece") \cup F(ev.acc = <<ev.k, ev.c>>, "kind and color of a piece")
         \cup F(ev.pro = PromotePiece(p), "promotion of a piece") \cup F(ev.unpro = UnpromotePiece(p), "unpromotion of a piece")
         \cup If(ev, "ai", p - 1, "array index of a piece")
         \cup If(ev, "opt", p, "optional piece") \cup If(ev, "back", p, "optional piece and back")
    [] ev.f = "piece_none" -> F(ev.opt = 0 /\ ev.back = 0, "no piece")
    [] ev.f = "piece_all" -> F(Len(ev.v) = 28 /\ Range(ev.v) = Pieces, "enumeration of pieces")
                             \cup F(\A p \in Pieces : p - 1 < ev.num, "number of array indices")
    [] ev.f = "piece_const" -> F(ev.v = <<Piece(ev.k, ev.c), Piece(ev.k, ev.c)>>, "named piece")
    [] ev.f = "res" -> F(ev.repr = ev.i /\ ev.of = ev.i, "number of a resolution")
                       \cup If(ev, "opt", ev.i, "optional resolution") \cup If(ev, "back", ev.i, "optional resolution and back")
    [] ev.f = "res_none" -> F(ev.opt = 0 /\ ev.def = 0 /\ ev.back = 0, "no resolution")
    [] ev.f = "ill" -> F(ev.repr = ev.i /\ ev.of = ev.i, "number of a reason")
                       \cup If(ev, "opt", <<ev.i, ev.i>>, "optional reason") \cup If(ev, "back", <<ev.i, ev.i>>, "optional reason and back")
    [] ev.f = "ill_none" -> F(ev.opt = <<0, 0>> /\ ev.def = 0 /\ ev.back = <<0, 0>>, "no reason")
    [] ev.f = "ill_from" -> F(\A x \in 0..255 : ev.v[x + 1] = IF x \in 1..7 THEN x ELSE 0, "reason from a number")
    [] ev.f = "status" -> F(ev.repr = ev.i, "number of a status")

\* One row of a move table.
BadRow(d, a, p, r) ==
  LET m == [drop |-> d, a |-> a, to |-> r[1], pro |-> p]
      from == IF d = 1 THEN 0 ELSE a
      w == Pack(m)
  IN F(r[2] = w, "packed form of a move") \cup F(r[3] = w /\ r[4] = 1, "packed form made directly")
     \cup F(<<r[5], r[6], r[7], r[8]>> = <<d, a, r[1], p>>, "packed form and back")
     \cup F(<<r[9], r[10], r[11], r[12]>> = <<from, r[1], p, d>>, "what a move says of itself")
     \cup F(<<r[13], r[14], r[15], r[16]>> = <<from, r[1], p, d>>, "what a packed move says of itself")
     \cup F(r[17] = w /\ r[18] = w, "optional packed move")
\* The C interface has packed moves only: [to, w, from, to, promoting, drop].
BadCRow(d, a, p, r) ==
  LET m == [drop |-> d, a |-> a, to |-> r[1], pro |-> p] IN
  F(r[2] = Pack(m), "packed form made directly")
  \cup F(<<r[3], r[4], r[5], r[6]>> = <<IF d = 1 THEN 0 ELSE a, r[1], p, d>>, "what a packed move says of itself")
BadMove(ev) ==
  CASE ev.f = "mv" -> F(Len(ev.v) = 81 /\ \A i \in 1..81 : ev.v[i][1] = i, "destinations")
                      \cup UNION {BadRow(ev.d, ev.a, ev.p, ev.v[i]) : i \in 1..81}
    [] ev.f = "cmv" -> F(Len(ev.v) = 81 /\ \A i \in 1..81 : ev.v[i][1] = i, "destinations")
                      \cup UNION {BadCRow(ev.d, ev.a, ev.p, ev.v[i]) : i \in 1..81}
    [] ev.f = "mv_none" -> F(ev.opt = 0 /\ ev.def = 0 /\ ev.back = 0, "no move")

SquareRecords == {"sq_from", "sq_fromu", "sq_new", "sq_newrel", "sq", "sq_none", "sq_shift", "sq_all", "sq_const"}
PieceRecords == {"color", "color_all", "kind", "kind_none", "kind_from", "kind_fromu", "kind_all", "piece", "piece_none",
                 "piece_all", "piece_const", "res", "res_none", "ill", "ill_none", "ill_from", "status"}
MoveRecords == {"mv", "cmv", "mv_none"}

Init == l = 1
Is(S) == l <= Len(Trace) /\ Trace[l].f \in S
Step(bad) == IF bad = {} THEN l' = l + 1 ELSE PrintT(<<"NONCONFORM", l, bad>>) /\ FALSE
OfSquare == Is(SquareRecords) /\ Step(BadSquare(Trace[l]))
OfPiece  == Is(PieceRecords) /\ Step(BadPiece(Trace[l]))
OfMove   == Is(MoveRecords) /\ Step(BadMove(Trace[l]))
Next == OfSquare \/ OfPiece \/ OfMove
Spec == Init /\ [][Next]_l
View == l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
