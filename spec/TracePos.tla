------------------------------- MODULE TracePos -------------------------------
(***************************************************************************)
(* Validation of traces recorded from real position objects (Rust or C)     *)
(* against Position.tla.                                                    *)
(*                                                                          *)
(* A trace is a list of events.  Each names one public operation with its   *)
(* arguments and result, and carries everything that could be observed of   *)
(* the object afterwards, as differences to what was observed before (see   *)
(* harness/src/obs.rs).  The state of this specification is the last        *)
(* observation; an event is a step of the specification only if what was    *)
(* observed is what the actions of Position.tla lead to.  Each property     *)
(* judges its own aspect of a step; `Prop` selects the property.            *)
(***************************************************************************)
EXTENDS Legality, Json, IOUtils, SequencesExt

Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP

VARIABLES l,     \* next line of the trace
          o      \* what was last observed

-----------------------------------------------------------------------------
(* Observations *)
PieceOrder == <<1,2,3,4,5,6,7,8,9,10,11,12,13,14,17,18,19,20,21,22,23,24,25,26,27,28,29,30>>
Const(n, x) == [i \in 1..n |-> x]

ZeroObs ==
  [pa |-> Const(81, 0),    \* piece on each square
   bp |-> Const(81, 0),    \* piece according to the 28 per-piece sets
   bk |-> Const(81, 0),    \* kind according to the 14 per-kind sets
   bc |-> Const(81, 0),    \* owner according to the per-player sets
   oc |-> Const(81, 0),    \* member of the occupied set
   va |-> Const(81, 1),    \* member of the vacant set
   hp |-> Const(28, 0),    \* hand count per piece, -1 for "not a hand piece"
   hd |-> Const(14, 0),    \* hand count per player and kind
   sc |-> Const(9, 0),     \* side, ply, packed last move, last move (4), kings (2)
   ct |-> Const(5, 0),     \* sizes of occupied, vacant, black, white; sets with strays
   in |-> Const(100, 0),   \* with history: summary of the initial position
   im |-> Const(12, 0),    \* with history: queries that differ from the inner position's
   ms |-> <<>>,            \* with history: recorded moves
   full |-> 0]

Upd(v, ev, n) ==
  IF n \in DOMAIN ev
  THEN FoldLeft(LAMBDA a, x : [a EXCEPT ![x[1]] = x[2]], v, ev[n])
  ELSE v

UpdMoves(v, ev) ==
  IF "md" \in DOMAIN ev
  THEN SubSeq(v, 1, ev.md[1]) \o Tail(ev.md)
  ELSE v

Observe(b, ev) ==
  [pa |-> Upd(b.pa, ev, "pa"), bp |-> Upd(b.bp, ev, "bp"), bk |-> Upd(b.bk, ev, "bk"),
   bc |-> Upd(b.bc, ev, "bc"), oc |-> Upd(b.oc, ev, "oc"), va |-> Upd(b.va, ev, "va"),
   hp |-> Upd(b.hp, ev, "hp"), hd |-> Upd(b.hd, ev, "hd"), sc |-> Upd(b.sc, ev, "sc"),
   ct |-> Upd(b.ct, ev, "ct"), in |-> Upd(b.in, ev, "in"), im |-> Upd(b.im, ev, "im"),
   ms |-> UpdMoves(b.ms, ev),
   full |-> IF ev.e = "new" THEN ev.full ELSE b.full]

DeltaNames == {"pa", "bp", "bk", "bc", "oc", "va", "hp", "hd", "sc", "ct", "in", "im", "md"}
Silent(ev) == DeltaNames \cap DOMAIN ev = {}
\* Nothing changed except possibly the named vectors.
OnlyTouches(ev, names) == (DeltaNames \ names) \cap DOMAIN ev = {}

HandsOf(hd) == <<SubSeq(hd, 1, 7), SubSeq(hd, 8, 14)>>

\* The abstract state an observation stands for.
Abs(x) == [board |-> x.pa, hands |-> HandsOf(x.hd),
           side |-> x.sc[1], ply |-> x.sc[2], last |-> x.sc[3]]

MoveOf(ev) == [drop |-> ev.m[1], a |-> ev.m[2], to |-> ev.m[3], pro |-> ev.m[4]]

WellFormed(x) ==
  /\ \A i \in 1..81 : x.pa[i] \in OptPieces
  /\ \A i \in 1..14 : x.hd[i] \in 0..255
  /\ x.sc[1] \in Colors
  /\ x.sc[2] \in 0..65535

StartObs(how) == IF how = "empty" THEN EmptyPosition ELSE StartPosition
Known(ev) == ev.e = "new" /\ ev.how \in {"empty", "startpos", "default"}

\* What `in` holds: board, hands, side, ply, packed last move, kings.
Summary(st, kb, kw) ==
  [i \in 1..81 |-> st.board[i]] \o st.hands[1] \o st.hands[2]
     \o <<st.side, st.ply, st.last, kb, kw>>

\* The same, but for which of several kings of a player is named: any of them may be.
SameSummary(v, w) ==
  /\ SubSeq(v, 1, 98) = SubSeq(w, 1, 98)
  /\ \A c \in {Black, White} :
       \/ v[98 + c] = w[98 + c]
       \/ LET ks == {i \in 1..81 : v[i] = Piece(King, c)}
          IN Cardinality(ks) > 1 /\ v[98 + c] \in ks

-----------------------------------------------------------------------------
(* Verdicts.  Each is the set of aspects in which the step from x to y by   *)
(* event ev does not conform; empty means it does.                          *)
F(cond, name) == IF cond THEN {} ELSE {name}

\* C01: accepted exactly when sensible, with exactly the effect on board and hands.
V_effect(x, ev, y) ==
  CASE ev.e = "mv" ->
         LET st == Abs(x)
             m == MoveOf(ev)
             ok == MakesSense(st, m)
         IN IF ok # (ev.r = 1)
            THEN {IF ok THEN "a sensible move was rejected" ELSE "a move that makes no sense was accepted"}
            ELSE IF ~ok THEN {}
            ELSE F(y.pa = BoardAfter(st, m), "board after the move")
                 \cup F(HandsOf(y.hd) = HandsAfter(st, m), "hands after the move")
    [] ev.e = "new" -> F(WellFormed(y), "malformed position")
                       \cup (IF Known(ev)
                             THEN F(y.pa = StartObs(ev.how).board, "initial board")
                                  \cup F(HandsOf(y.hd) = StartObs(ev.how).hands, "initial hands")
                             ELSE {})
    [] OTHER -> F(WellFormed(y), "malformed position")

\* C02: a rejected move changes nothing.
V_rejected(x, ev, y) ==
  IF ev.e = "mv" /\ ev.r = 0
  THEN F(Silent(ev), "a query answers differently after a rejected move")
       \cup F(ev.eq = 1, "unequal to a copy taken before a rejected move")
       \cup F(ev.hq = 1, "hashes unlike a copy taken before a rejected move")
       \cup F(ev.cq = 1, "compares unlike a copy taken before a rejected move")
  ELSE {}

\* C03: side, move number and last move.
Turn(x) == SubSeq(x.sc, 1, 3)
LastMoveForms(x) ==
  SubSeq(x.sc, 4, 7) = IF x.sc[3] = 0 THEN <<-1, -1, -1, -1>>
                       ELSE LET m == Unpack(x.sc[3]) IN <<m.drop, m.a, m.to, m.pro>>
V_turn(x, ev, y) ==
  F(LastMoveForms(y), "the two forms of the last move differ") \cup
  CASE ev.e = "mv" /\ ev.r = 1 ->
         F(y.sc[1] = Opp(x.sc[1]), "side to move after a move")
         \cup F(y.sc[2] = (x.sc[2] + 1) % 65536, "move number after a move")
         \cup F(y.sc[3] = Pack(MoveOf(ev)), "last move after a move")
         \cup F(ev.eq = 0, "equal to a copy taken before an accepted move")
    [] ev.e = "mv" /\ ev.r = 0 -> F(Turn(y) = Turn(x), "turn after a rejected move")
    [] ev.e \in {"ps", "hs", "cl", "rp"} -> F(Turn(y) = Turn(x), "turn after an edit")
    [] ev.e = "sd" -> F(y.sc = [x.sc EXCEPT ![1] = ev.c], "setting the side to move")
                      \cup F(OnlyTouches(ev, {"sc"}), "setting the side changes something else")
    [] ev.e = "pl" -> F((ev.r = 1) = SetPlyOk(ev.n), "result of setting the move number")
                      \cup F(y.sc = [x.sc EXCEPT ![2] = IF SetPlyOk(ev.n) THEN ev.n ELSE @],
                             "setting the move number")
                      \cup F(OnlyTouches(ev, {"sc"}), "setting the move number changes something else")
    [] ev.e = "new" -> IF Known(ev) THEN F(Turn(y) = <<Black, 1, 0>>, "initial turn")
                       ELSE IF ev.how = "arb" THEN F(Turn(y) = SubSeq(ev.arg, 96, 98), "initial turn")
                       ELSE {}

\* C04: conservation of material.
KingsOf(x) == <<Cardinality(PieceSet(x.pa, 8)), Cardinality(PieceSet(x.pa, 24))>>
WrapsHand(x, ev) == /\ ev.m[1] = 0
                    /\ x.pa[ev.m[3]] # 0
                    /\ IsHandKind(BaseKind(KindOf(x.pa[ev.m[3]])))
                    /\ HandsOf(x.hd)[x.sc[1]][BaseKind(KindOf(x.pa[ev.m[3]]))] = 255
StartMaterial == <<18, 4, 4, 4, 4, 2, 2, 2>>
V_material(x, ev, y) ==
  CASE ev.e = "mv" ->
         F(WellFormed(y), "malformed position") \cup
         (IF Silent(ev) \/ ~WellFormed(y) \/ WrapsHand(x, ev) THEN {}
          ELSE F(MaterialVector(Abs(x)) = MaterialVector(Abs(y)), "material after a move")
               \cup F(KingsOf(x) = KingsOf(y), "kings after a move"))
    [] ev.e = "new" -> F(WellFormed(y), "malformed position") \cup
         (IF ev.how \in {"startpos", "default"} /\ WellFormed(y)
          THEN F(MaterialVector(Abs(y)) = StartMaterial, "material at the start")
          ELSE {})
    [] OTHER -> F(WellFormed(y), "malformed position")

\* C05: all views agree.
HandByPiece(hd) ==
  [j \in 1..28 |-> LET p == PieceOrder[j] IN
     IF IsHandKind(KindOf(p)) THEN hd[7 * (ColorOf(p) - 1) + KindOf(p)] ELSE -1]
V_views(x, ev, y) ==
  LET b == y.pa IN
  (IF Silent(ev) THEN {} ELSE       \* judged already
     F(y.bp = b, "per-piece sets")
     \cup F(y.bk = [s \in 1..81 |-> b[s] % 16], "per-kind sets")
     \cup F(y.bc = [s \in 1..81 |-> IF b[s] = 0 THEN 0 ELSE ColorOf(b[s])], "per-player sets")
     \cup F(y.oc = [s \in 1..81 |-> IF b[s] = 0 THEN 0 ELSE 1], "occupied set")
     \cup F(y.va = [s \in 1..81 |-> IF b[s] = 0 THEN 1 ELSE 0], "vacant set")
     \cup F(y.hp = HandByPiece(y.hd), "hand contents by piece and by player")
     \cup F(y.sc[8] \in KingAnswers(b, Black), "king locator for Black")
     \cup F(y.sc[9] \in KingAnswers(b, White), "king locator for White")
     \cup F(y.ct = <<Cardinality(Occupied(b)), Cardinality(Vacant(b)),
                     Cardinality(PlayerSet(b, Black)), Cardinality(PlayerSet(b, White)), 0>>,
            "sizes of the sets"))
  \cup (IF ev.e = "ps" THEN F(b = [x.pa EXCEPT ![ev.s] = ev.p], "board after an edit")
                            \cup F(y.hd = x.hd, "hands after an edit of the board")
        ELSE IF ev.e = "hs" THEN F(HandsOf(y.hd) = [HandsOf(x.hd) EXCEPT ![ev.c] = ev.h], "hands after an edit")
                            \cup F(b = x.pa, "board after an edit of a hand")
        ELSE {})

\* C06: a position with history.
V_history(x, ev, y) ==
  CASE ev.e = "cl" -> F(ev.same = 1 /\ ev.eq = 1, "a clone differs from its original")
                      \cup F(Silent(ev), "using a clone changed the original")
    [] ev.e = "rp" -> F(ev.ok = 1 /\ ev.eq = 1, "replaying the recorded moves leads elsewhere")
                      \cup F(Silent(ev), "replaying changed the original")
    [] y.full = 0 -> {}
    [] y.full = 2 /\ ev.e # "new" ->      \* C: the recorded moves cannot be asked for
         F("in" \notin DOMAIN ev, "the initial position changed")
         \cup F(\A i \in 1..12 : y.im[i] = 0, "a query differs from that of the current position")
         \cup F(Abs(y) = (IF ev.r = 1 THEN MakeMove(Abs(x), MoveOf(ev)) ELSE Abs(x)),
                "current position after a move")
    [] ev.e = "new" /\ ev.how = "mid" ->   \* one taken up in the middle; its moves are left out
         F(\A i \in 1..12 : y.im[i] = 0, "a query differs from that of the current position")
    [] ev.e = "new" ->
         F(y.ms = <<>>, "moves of a fresh position")
         \cup F(\A i \in 1..12 : y.im[i] = 0, "a query differs from that of the current position")
         \cup (IF ev.how = "arb"
               THEN F(SameSummary(y.in, ev.arg), "initial position")
                    \cup F(SameSummary(Summary(Abs(y), y.sc[8], y.sc[9]), ev.arg), "current position of a fresh one")
               ELSE F(y.in = Summary(StartPosition, Sq(5, 9), Sq(5, 1)), "initial position")
                    \cup F(Abs(y) = StartPosition, "current position of a fresh one"))
    [] OTHER ->
         F("in" \notin DOMAIN ev, "the initial position changed")
         \cup F(\A i \in 1..12 : y.im[i] = 0, "a query differs from that of the current position")
         \cup (IF ev.e = "mv"
               THEN LET mm == SubSeq(ev.m, 1, 4) IN
                    F(y.ms = IF ev.r = 1 THEN Append(x.ms, mm) ELSE x.ms, "recorded moves")
                    \cup F(Abs(y) = (IF ev.r = 1 THEN MakeMove(Abs(x), MoveOf(ev)) ELSE Abs(x)),
                           "current position after a move")
               ELSE F(y.ms = x.ms, "recorded moves"))

\* C19: legality queries (lg) and moves (lm) through a checker that supplies only
\* the required methods.  `ks`, `kp`, `kl`, `km` are what these required methods say
\* about the current position, `il`, `li`, `al`, `r` what the default methods say.
V_legality(x, ev, y) ==
  CASE ev.e = "lg" ->
         F(ev.il = IsLegal(ev.ks, ev.kp), "legality of a move")
         \cup F(ev.li = IsLegalLite(ev.ks, ev.kl), "quick legality of a move")
         \cup F(ev.al = AllLegalMoves(ev.ks, ev.km), "legal moves")
         \cup F(Silent(ev), "a query changed the position")
    [] ev.e = "lm" ->
         LET want == IsLegal(ev.ks, ev.kp)
             mm == SubSeq(ev.m, 1, 4)
             st == Abs(x)
         IN F(ev.r = want, "result of making a move through a checker")
            \cup (IF want = LegalMove
                  THEN F(Abs(y) = MoveEffect(st, MoveOf(ev)), "position after making a legal move through a checker")
                       \cup F(y.ms = Append(x.ms, mm), "moves after making a legal move through a checker")
                       \cup F(y.in = x.in, "initial position after making a legal move through a checker")
                  ELSE F(Silent(ev) /\ ev.eq = 1, "an illegal move through a checker changed the position"))
    [] OTHER -> {}

Verdict(p, x, ev, y) ==
  CASE p = "C01" -> V_effect(x, ev, y)
    [] p = "C02" -> V_rejected(x, ev, y)
    [] p = "C03" -> V_turn(x, ev, y)
    [] p = "C04" -> V_material(x, ev, y)
    [] p = "C05" -> V_views(x, ev, y)
    [] p = "C06" -> V_history(x, ev, y)
    [] p = "C19" -> V_legality(x, ev, y)

AllPos == <<"C01", "C02", "C03", "C04", "C05", "C06">>
Failing(x, ev, y) ==
  IF Prop = "ALL"
  THEN LET bad == {i \in 1..6 : Verdict(AllPos[i], x, ev, y) # {}}
       IN IF bad = {} THEN {} ELSE UNION {Verdict(AllPos[i], x, ev, y) : i \in bad}
  ELSE Verdict(Prop, x, ev, y)

-----------------------------------------------------------------------------
Init == l = 1 /\ o = ZeroObs

Step(ev) ==
  LET x == IF ev.e = "new" THEN ZeroObs ELSE o
      y == Observe(x, ev)
      bad == Failing(x, ev, y)
  IN IF bad = {}
     THEN /\ l' = l + 1
          /\ o' = y
     ELSE /\ PrintT(<<"NONCONFORM", l, bad>>)
          /\ FALSE

\* One named action per operation, so that TLC's coverage tells them apart.
Is(e) == l <= Len(Trace) /\ Trace[l].e = e
NewObject   == Is("new") /\ Step(Trace[l])
MoveMade    == Is("mv") /\ Trace[l].r = 1 /\ Step(Trace[l])
MoveRefused == Is("mv") /\ Trace[l].r = 0 /\ Step(Trace[l])
PieceSetTo  == Is("ps") /\ Step(Trace[l])
HandSetTo   == Is("hs") /\ Step(Trace[l])
SideSetTo   == Is("sd") /\ Step(Trace[l])
PlySetTo    == Is("pl") /\ Step(Trace[l])
Cloned      == Is("cl") /\ Step(Trace[l])
Replayed    == Is("rp") /\ Step(Trace[l])
LegalAsked  == Is("lg") /\ Step(Trace[l])
LegalMade   == Is("lm") /\ Trace[l].r = LegalMove /\ Step(Trace[l])
IllegalMade == Is("lm") /\ Trace[l].r # LegalMove /\ Step(Trace[l])

Next == NewObject \/ MoveMade \/ MoveRefused \/ PieceSetTo \/ HandSetTo
        \/ SideSetTo \/ PlySetTo \/ Cloned \/ Replayed
        \/ LegalAsked \/ LegalMade \/ IllegalMade

Spec == Init /\ [][Next]_<<l, o>>

View == l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
