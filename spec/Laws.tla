--------------------------------- MODULE Laws ---------------------------------
(***************************************************************************)
(* What the definitions that traces are judged by must satisfy themselves.  *)
(* Each law is one state of this specification; TLC evaluates it in full    *)
(* over the finite domains given.  `Prop` selects the laws that matter to   *)
(* one property.                                                            *)
(***************************************************************************)
EXTENDS Notation, Bitboards, Sink, IOUtils

H == INSTANCE Hands
CONSTANT Swaps   \* which neighbours are exchanged: i stands for i and i + 1
Prop == IOEnv.PROP
VARIABLE law

Sample == {<<1>>, <<9>>, <<73>>, <<81>>, <<41>>, <<1, 2>>, <<9, 10>>, <<63, 64>>, <<40, 42>>}
\* Sets of several densities, all files and ranks different.
Blends == {{}, Squares, {s \in Squares : s % 3 = 1}, {s \in Squares : (s * s) % 7 < 3}, {s \in Squares : (s * s * s) % 11 < 9},
           {s \in Squares : s > 60}, {s \in Squares : (s * 37) % 81 < 12}}
\* Boards of several densities with all pieces.
Mixed(i) == [s \in Squares |-> LET x == (s * s * i + 7 * s + i) % (28 + 10 * (i - 1)) IN IF x < 14 THEN x + 1 ELSE IF x < 28 THEN x + 3 ELSE 0]
EmptyHands == <<EmptyHand, EmptyHand>>
Sum9(f) == f[1] + f[2] + f[3] + f[4] + f[5] + f[6] + f[7] + f[8] + f[9]
\* A position with the given pieces on the given squares.
On(sqs, ps) == [EmptyBoard EXCEPT ![sqs[1]] = ps[1], ![sqs[2]] = ps[2]]
State(b, h, c, n) == [board |-> b, hands |-> h, side |-> c, ply |-> n, last |-> 0]
Counts == {0, 1, 2, 9, 10, 11, 18, 99, 100, 101, 110, 255}
OneKind(k, n, c) == [i \in 1..2 |-> IF i = c THEN [EmptyHand EXCEPT ![k] = n] ELSE EmptyHand]
TwoKinds(k, n, j, m) == <<[EmptyHand EXCEPT ![k] = n], [EmptyHand EXCEPT ![j] = m]>>
ReadsBack(st) == ReadSfen(SfenText(st)) = [board |-> st.board, side |-> st.side, hands |-> st.hands, ply |-> st.ply]

\* Renaming squares: exchanging two neighbours (such exchanges make up every permutation), in a position and a move.
Swap(i, s) == IF s = i THEN i + 1 ELSE IF s = i + 1 THEN i ELSE s
SwapBoard(i, b) == [s \in Squares |-> b[Swap(i, s)]]
SwapMove(i, m) == [m EXCEPT !.to = Swap(i, @), !.a = IF m.drop = 1 THEN @ ELSE Swap(i, @)]
SwapState(i, st) == [st EXCEPT !.board = SwapBoard(i, @), !.last = IF @ = 0 THEN 0 ELSE Pack(SwapMove(i, Unpack(@)))]
\* Moving the numbers of a position on: the move number, and the counts of all hands but those of kind k.
Later(st, n) == [st EXCEPT !.ply = (@ + n) % 65536]
Richer(st, k, n) == [st EXCEPT !.hands = [c \in 1..2 |-> [j \in HandKinds |-> IF j = k THEN @[c][j] ELSE (@[c][j] + n) % 256]]]
Scenes(sqs) == {State([EmptyBoard EXCEPT ![sqs[1]] = p, ![sqs[2]] = q], <<h, h>>, c, 7) :
                  p \in {0, 1, 5, 8, 9, 17, 24}, q \in {0, 1, 8, 17, 24, 30}, h \in {EmptyHand, <<1, 0, 3, 0, 255, 0, 2>>}, c \in Colors}
Tries(sqs) == {NormalMove(sqs[1], sqs[2], pro) : pro \in {0, 1}} \cup {NormalMove(sqs[2], sqs[1], 0)}
              \cup {DropMove(p, sqs[2]) : p \in {1, 8, 9, 17, 21}}
\* Runs of up to so many chunks, taken whole or in part, accepted or refused.
RunsOf(chunks, most) ==
  LET offers == UNION {{<<chunks[i], n, ok>> : n \in {0, 1, Len(chunks[i])} \cap 0..Len(chunks[i]), ok \in {0, 1}} : i \in DOMAIN chunks}
      fair == {o \in offers : o[3] = 1 => o[2] = Len(o[1])}
  IN {[w |-> w, r |-> r] : w \in UNION {[1..n -> fair] : n \in 0..most}, r \in {0, 1}}
Continues(text, w) == LET s == FoldLeft(LAMBDA a, o : Offer(a, text, o), Fresh, w) IN s.wrong = {} /\ ~s.refused
KindTouched(st, m) == IF m.drop = 1 THEN KindOf(m.a)
                      ELSE 0

Names ==
  CASE Prop = "C11" -> {"coordinates", "flip", "relative", "step back", "steps compose"}
    [] Prop = "C12" -> {"promotion", "pieces", "hand kinds"}
    [] Prop = "C13" -> {"packing", "packing is one to one", "unpacking"}
    [] Prop = "C14" -> {"read two squares", "read hands", "read both hands", "read ply", "read runs", "ranks apart", "pieces apart", "hand kinds apart"}
    [] Prop = "C15" -> {"moves read", "move texts", "square texts", "piece texts", "kind texts", "hand kinds apart"}
    [] Prop = "C07" -> {"counts are alike"}
    [] Prop = "C08" -> {"file patterns", "complement", "squares apart"}
    [] Prop = "C09" -> {"shift one", "shift and flip", "shift adds", "shift composes", "shift is a union", "files apart"}
    [] Prop = "C10" -> {"squares to take are alike"}
    [] Prop = "C16" -> {"accepted chunks are one", "letters are alike"}
    [] Prop \in {"C01", "C02", "C03", "C04", "C06"} -> {"squares are alike", "numbers are alike", "bystanders"}
    [] Prop = "C05" -> {"squares are alike", "views are alike", "bystanders"}
    [] OTHER -> {"none"}

Holds(n) ==
  CASE n = "none" -> TRUE
    [] n = "squares are alike" -> \A i \in Swaps : \A sqs \in {<<i, i + 1>>, <<i + 1, i>>, <<i, 1 + ((i + 40) % 81)>>, <<1 + ((i + 40) % 81), i + 1>>} :
         \A st \in Scenes(sqs) : \A m \in Tries(sqs) : MakeMove(SwapState(i, st), SwapMove(i, m)) = SwapState(i, MakeMove(st, m))
    [] n = "numbers are alike" -> \A st \in Scenes(<<41, 50>>) : \A m \in Tries(<<41, 50>>) :
         /\ \A d \in {1, 255, 256, 32768, 65528, 65529} :
              MakeMove(Later(st, d), m) = (IF MakesSense(st, m) THEN Later(MakeMove(st, m), d) ELSE Later(st, d))
         /\ \A d \in {1, 2, 100, 255} : MakeMove(Richer(st, KindTouched(st, m), d), m) = Richer(MakeMove(st, m), KindTouched(st, m), d)
    [] n = "bystanders" -> \A i \in 1..6 : \A sqs \in {<<41, 50>>, <<1, 81>>, <<64, 63>>} : \A st \in Scenes(sqs) :
         \* pieces (other than kings) on other squares neither matter nor change
         LET full == [s \in Squares |-> IF s \in Range(sqs) THEN st.board[s] ELSE IF KindOf(Mixed(i)[s]) = King THEN 0 ELSE Mixed(i)[s]]
             bare(b) == [s \in Squares |-> IF s \in Range(sqs) THEN b[s] ELSE 0]
             busy == [st EXCEPT !.board = full] IN
         /\ \A m \in Tries(sqs) : [MakeMove(busy, m) EXCEPT !.board = bare(@)] = MakeMove(st, m)
                                  /\ \A s \in Squares \ Range(sqs) : MakeMove(busy, m).board[s] = full[s]
         /\ \A p \in {1, 8, 9, 17, 24} : PieceSet(st.board, p) = PieceSet(full, p) \cap Range(sqs)
         /\ \A k \in {1, 8, 9} : KindSet(st.board, k) = KindSet(full, k) \cap Range(sqs)
         /\ \A w \in Colors : PlayerSet(st.board, w) = PlayerSet(full, w) \cap Range(sqs)
                                /\ KingAnswers(st.board, w) = KingAnswers(full, w)
         /\ Occupied(st.board) = Occupied(full) \cap Range(sqs)
    [] n = "counts are alike" -> \* a count that stays away from both ends may be moved on, and those of other kinds anywhere
         \A k \in Kinds, j \in HandKinds, d \in {1, 13, 128, 250} : \A h \in {EmptyHand, <<1, 2, 1, 0, 255, 1, 7>>, <<5, 5, 5, 5, 5, 5, 5>>, <<3, 254, 0, 9, 2, 5, 100>>} :
           LET on(x) == [x EXCEPT ![j] = (@ + d) % 256] IN
           (j # k \/ (h[j] \in 2..253 /\ h[j] + d \in 2..253)) =>
             /\ H!CanAdd(on(h), k) <=> H!CanAdd(h, k)
             /\ H!CanRemove(on(h), k) <=> H!CanRemove(h, k)
             /\ H!Added(on(h), k) = on(H!Added(h, k))
             /\ H!Removed(on(h), k) = on(H!Removed(h, k))
    [] n = "views are alike" -> \A i \in Swaps : \A st \in Scenes(<<i, 1 + ((i + 30) % 81)>>) :
         LET b == st.board  c == SwapBoard(i, b)
             image(x) == {Swap(i, s) : s \in x} IN
         /\ \A p \in {1, 8, 9, 17, 24} : PieceSet(c, p) = image(PieceSet(b, p))
         /\ \A k \in {1, 8, 9} : KindSet(c, k) = image(KindSet(b, k))
         /\ \A w \in Colors : PlayerSet(c, w) = image(PlayerSet(b, w)) /\ KingAnswers(c, w) = image(KingAnswers(b, w))
         /\ Occupied(c) = image(Occupied(b)) /\ Vacant(c) = image(Vacant(b))
    [] n = "coordinates" -> /\ \A s \in Squares : OnBoard(File(s), Rank(s)) /\ Sq(File(s), Rank(s)) = s
                            /\ \A f, r \in 1..9 : Sq(f, r) \in Squares /\ File(Sq(f, r)) = f /\ Rank(Sq(f, r)) = r
    [] n = "flip" -> \A s \in Squares : FlipSq(s) = 82 - s /\ FlipSq(FlipSq(s)) = s /\ (FlipSq(s) = s <=> s = Sq(5, 5))
    [] n = "relative" -> \A s \in Squares : /\ RelFile(s, White) = File(FlipSq(s)) /\ RelRank(s, White) = Rank(FlipSq(s))
                                            /\ RelFile(s, Black) = File(s) /\ RelRank(s, Black) = Rank(s)
    [] n = "step back" -> \A s \in Squares, df, dr \in -9..9 :
                            LET t == ShiftSq(s, df, dr) IN t # 0 => ShiftSq(t, -df, -dr) = s
    [] n = "steps compose" -> \A s \in Squares, a, b \in -4..4, c, d \in -3..3 :
                            LET t == ShiftSq(s, a, b) IN t # 0 => ShiftSq(t, c, d) = ShiftSq(s, a + c, b + d)
    [] n = "promotion" -> /\ \A k \in Kinds : PromoteKind(k) # 0 => UnpromoteKind(PromoteKind(k)) = k
                          /\ \A k \in Kinds : UnpromoteKind(k) # 0 => PromoteKind(UnpromoteKind(k)) = k
                          /\ \A k \in Kinds : ~(PromoteKind(k) # 0 /\ UnpromoteKind(k) # 0)
                          /\ \A k \in Kinds : BaseKind(BaseKind(k)) = BaseKind(k) /\ BaseKind(k) \in 1..8
                          /\ Cardinality({k \in Kinds : PromoteKind(k) # 0}) = 6
    [] n = "pieces" -> /\ Cardinality(Pieces) = 28
                       /\ \A k \in Kinds, c \in Colors : KindOf(Piece(k, c)) = k /\ ColorOf(Piece(k, c)) = c
                       /\ \A p \in Pieces : PromotePiece(p) # 0 => ColorOf(PromotePiece(p)) = ColorOf(p) /\ UnpromotePiece(PromotePiece(p)) = p
    [] n = "hand kinds" -> \A k \in Kinds : IsHandKind(k) <=> (UnpromoteKind(k) = 0 /\ k # King)
    [] n = "packing" -> \A m \in Moves : Pack(m) \in 1..65535 /\ Unpack(Pack(m)) = m
    [] n = "packing is one to one" -> Cardinality({Pack(m) : m \in Moves}) = Cardinality(NormalMoves) + Cardinality(DropMoves)
    [] n = "unpacking" -> \A w \in {Pack(m) : m \in Moves} : Pack(Unpack(w)) = w
    [] n = "read two squares" -> \A q \in {<<1, 10>>, <<9, 18>>, <<80, 81>>, <<40, 41>>}, p, r \in OptPieces :
                                   ReadsBack(State(On(q, <<p, r>>), <<EmptyHand, EmptyHand>>, Black, 1))
    [] n = "read hands" -> \A k \in HandKinds, c \in Colors, m \in Counts :
                             ReadsBack(State(EmptyBoard, OneKind(k, m, c), c, 1))
    [] n = "read both hands" -> \A k, j \in HandKinds, a, b \in {0, 1, 2, 10} :
                             ReadsBack(State(StartBoard, TwoKinds(k, a, j, b), White, 2))
    [] n = "read ply" -> \A m \in {0, 1, 9, 10, 11, 99, 100, 999, 1000, 1001, 9999, 10000, 10010, 65535} :
                           ReadsBack(State(StartBoard, <<EmptyHand, EmptyHand>>, Black, m))
    [] n = "read runs" -> \A q \in SUBSET {5, 14, 23, 32, 41, 50, 59, 68, 77} :
                           ReadsBack(State([s \in Squares |-> IF s \in q THEN 30 ELSE 0], <<EmptyHand, EmptyHand>>, Black, 1))
    [] n = "moves read" -> /\ \A m \in NormalMoves : ReadMove(MoveText(m), Black) = m
                           /\ \A m \in DropMoves : ReadMove(MoveText(m), ColorOf(m.a)) = m
    [] n = "move texts" -> \* one to one but for the color of a dropped piece
         Cardinality({MoveText(m) : m \in Moves}) = Cardinality(NormalMoves) + Cardinality(DropMoves) \div 2
    [] n = "square texts" -> \A s \in Squares : ReadSquare(SquareText(s)) = s
    [] n = "piece texts" -> Cardinality({PieceText(p) : p \in Pieces}) = 28
    [] n = "kind texts" -> \A k \in Kinds : ReadKind(KindText[k]) = k
    [] n = "ranks apart" -> \A i \in 1..6, r \in 1..9 :
         /\ RankText(Mixed(i), r) = RankText([s \in Squares |-> IF Rank(s) = 1 THEN Mixed(i)[Sq(File(s), r)] ELSE 0], 1)
         /\ LET t == SfenText(State(Mixed(i), <<<<1, 0, 2, 0, 0, 0, 0>>, EmptyHand>>, White, 77))
                b == BoardText(Mixed(i))
            IN t = b \o " w 2NP 77" /\ Len(b) = Sum9([q \in 1..9 |-> Len(RankText(Mixed(i), q))]) + 8
    [] n = "pieces apart" -> \A i \in 1..6, r \in 1..9 :
         LET b == Mixed(i)
             there == SelectSeq([j \in 1..9 |-> b[Sq(10 - j, r)]], LAMBDA p : p # 0)
             bare == RankText([s \in Squares |-> IF b[s] = 0 THEN 0 ELSE 8], r)
             fill(a, j) == IF Ch(bare, j) = "K" THEN [t |-> a.t \o PieceText(there[a.n]), n |-> a.n + 1]
                           ELSE [a EXCEPT !.t = @ \o Ch(bare, j)]
         IN RankText(b, r) = FoldLeft(fill, [t |-> "", n |-> 1], [j \in 1..Len(bare) |-> j]).t
    [] n = "hand kinds apart" -> \A i \in 1..200 :
         LET h == [c \in 1..2 |-> [k \in 1..7 |-> LET x == (i * (7 * c + k) * 13 + i) % 29 IN IF x > 18 THEN 0 ELSE x]]
             slots == SelectSeq([j \in 1..14 |-> <<IF j <= 7 THEN 1 ELSE 2, HandOrder[1 + ((j - 1) % 7)]>>], LAMBDA q : h[q[1]][q[2]] > 0)
             alone(q) == HandsText([EmptyHands EXCEPT ![q[1]] = [@ EXCEPT ![q[2]] = h[q[1]][q[2]]]])
             letters == HandsText([c \in 1..2 |-> [k \in 1..7 |-> IF h[c][k] = 0 THEN 0 ELSE 1]])
         IN IF slots = <<>> THEN HandsText(h) = "-" /\ letters = "-"
            ELSE /\ HandsText(h) = FoldLeft(LAMBDA t, q : t \o alone(q), "", slots)
                 /\ Len(letters) = Len(slots)
                 /\ \A j \in DOMAIN slots : LET a == alone(slots[j]) IN Ch(letters, j) = Ch(a, Len(a))
    [] n = "accepted chunks are one" -> \A x \in RunsOf(<<"a", "b", "bb", "">>, 3) : \A t \in {"", "a", "ab", "abb", "abba"} :
         \* two accepted chunks next to each other that continue the text say as much as both in one; and an empty one says nothing
         LET w == x.w IN
         \A i \in 1..(Len(w) - 1) : (w[i][3] = 1 /\ w[i + 1][3] = 1 /\ Continues(t, SubSeq(w, 1, i + 1))) =>
            Run(t, x) = Run(t, [x EXCEPT !.w = SubSeq(w, 1, i - 1) \o <<<<w[i][1] \o w[i + 1][1], Len(w[i][1]) + Len(w[i + 1][1]), 1>>>> \o SubSeq(w, i + 2, Len(w))])
    [] n = "letters are alike" -> \A x \in RunsOf(<<"sn", "L">>, 2), y \in RunsOf(<<"ab", "c">>, 2) :
         \* a text and its pieces may be spelled otherwise
         (x.r = y.r /\ Len(x.w) = Len(y.w) /\ \A i \in DOMAIN x.w : Tail(x.w[i]) = Tail(y.w[i]) /\ (x.w[i][1] = "sn" <=> y.w[i][1] = "ab"))
         => Run("snLL", x) = Run("abcc", y) /\ Run("snL", x) = Run("abc", y) /\ Run("Lsn", x) = Run("cab", y)
    [] n = "file patterns" -> /\ \A f \in {1, 7, 8, 9}, p \in 0..511 : FilePattern(FileSet(f, p), f) = p
                              /\ \A f, g \in 1..9, p \in {1, 256, 511} : f # g => FilePattern(FileSet(f, p), g) = 0
    [] n = "complement" -> \A s \in Squares : Not({s}) = Squares \ {s} /\ AndNot({s}, Squares) = Not({s})
    [] n = "squares apart" -> \A x, y \in Blends : \A s \in Squares :
         LET at(z) == IF s \in z THEN {1} ELSE {} IN
         /\ at(And(x, y)) = And(at(x), at(y)) /\ at(Or(x, y)) = Or(at(x), at(y))
         /\ at(Xor(x, y)) = Xor(at(x), at(y)) /\ at(AndNot(x, y)) = AndNot(at(x), at(y))
         /\ at(Not(x)) = Not(at(x)) \cap {1}
    [] n = "files apart" -> \A x \in Blends : \A i \in 1..9 :
         LET file(z, j, f) == {Sq(f, Rank(s)) : s \in {t \in z : File(t) = j}}
             rank(z, j) == {Sq(File(s), 1) : s \in {t \in z : Rank(t) = j}} IN
         /\ \A k \in 0..9 :
              /\ file(ShiftUp(x, k), i, 1) = ShiftUp(file(x, i, 1), k)
              /\ file(ShiftDown(x, k), i, 1) = ShiftDown(file(x, i, 1), k)
              /\ rank(ShiftLeft(x, k), i) = ShiftLeft(rank(x, i), k)
              /\ rank(ShiftRight(x, k), i) = ShiftRight(rank(x, i), k)
         /\ file(Flip(x), 10 - i, 9) = Flip(file(x, i, 1))
         /\ FilePattern(x, i) = FilePattern(file(x, i, 1), 1)
    [] n = "squares to take are alike" -> \A x \in Blends : \A i \in Swaps, s \in Squares :
         LET image(z) == {Swap(i, t) : t \in z} IN
         /\ CanPop(x, s) <=> CanPop(image(x), Swap(i, s))
         /\ image(Popped(x, s)) = Popped(image(x), Swap(i, s))
    [] n = "shift one" -> \A s \in Squares, k \in 0..10 :
                           /\ ShiftUp({s}, k) = IF Rank(s) > k THEN {s - k} ELSE {}
                           /\ ShiftDown({s}, k) = IF Rank(s) + k <= 9 THEN {s + k} ELSE {}
                           /\ ShiftLeft({s}, k) = IF File(s) + k <= 9 THEN {s + 9 * k} ELSE {}
                           /\ ShiftRight({s}, k) = IF File(s) > k THEN {s - 9 * k} ELSE {}
    [] n = "shift and flip" -> \A s \in Squares, k \in 0..10 :
                           /\ Flip(ShiftUp({s}, k)) = ShiftDown(Flip({s}), k)
                           /\ Flip(ShiftLeft({s}, k)) = ShiftRight(Flip({s}), k)
    [] n = "shift adds" -> \A s \in Squares, a, b \in 0..5 : ShiftUp(ShiftUp({s}, a), b) = ShiftUp({s}, a + b)
    [] n = "shift composes" -> \A s \in Squares, a, b \in 0..4 : ShiftUp(ShiftLeft({s}, a), b) = ShiftLeft(ShiftUp({s}, b), a)
    [] n = "shift is a union" -> \A x \in Sample, k \in 0..9 : ShiftDown(Range(x), k) = UNION {ShiftDown({s}, k) : s \in Range(x)}

Init == law \in Names
Spec == Init /\ [][UNCHANGED law]_law
Law == Holds(law)
=============================================================================
