------------------------------- MODULE BitWords -------------------------------
(***************************************************************************)
(* The word arithmetic behind the bitboards: two 64-bit words, a word being *)
(* the set of the positions of its one-bits. Files 1 to 7 are the lower 63  *)
(* bits of the first word, files 8 and 9 the lower 18 bits of the second.   *)
(* Every operation is written as the code computes it (shifts that drop     *)
(* bits, masks obtained by subtraction, truncation to 32 bits, reversal),   *)
(* and must be the operation of Bitboards.tla on the sets of squares.       *)
(*                                                                          *)
(* Variant "code" is the code; the others are broken, one slip each:        *)
(*   "leftmask"   shift_left keeps the 64th bit of the first word           *)
(*   "rightmask"  shift_right by one keeps the 64th bit of the first word   *)
(*   "midfile"    shift_left by two to seven keeps the file that falls off  *)
(*   "carry"      shift_down without its mask (ranks carry into next file)  *)
(*   "wordflip"   flip reverses each word by itself                         *)
(*   "low"        flip keeps the lowest bit of the seam                     *)
(*   "notall"     complement without masks                                  *)
(*   "poppos"     the square taken from the second word is one too far      *)
(*   "filecut"    a file is read without cutting off its neighbours         *)
(***************************************************************************)
EXTENDS Bitboards, TLC
CONSTANTS Elements, Few, Variant

VARIABLES w, done
vars == <<w, done>>

-----------------------------------------------------------------------------
(* Words. *)
Word == 0..63
Shl(x, n) == {b + n : b \in x} \cap Word
Shr(x, n) == {b - n : b \in {c \in x : c >= n}}
Low32(x) == x \cap 0..31
Comp(x) == Word \ x
Reverse(x) == {63 - b : b \in x}
SwapBytes(x) == {(8 * (7 - (b \div 8))) + (b % 8) : b \in x}
Least(x) == CHOOSE b \in x : \A c \in x : b <= c
\* x - y for x >= y, bit by bit with a borrow.
RECURSIVE SubFrom(_, _, _, _)
SubFrom(x, y, b, borrow) ==
  IF b > 63 THEN {}
  ELSE LET d == (IF b \in x THEN 1 ELSE 0) - (IF b \in y THEN 1 ELSE 0) - borrow
       IN (IF d % 2 = 1 THEN {b} ELSE {}) \cup SubFrom(x, y, b + 1, IF d < 0 THEN 1 ELSE 0)
Minus(x, y) == SubFrom(x, y, 0, 0)
\* a 9-bit number as bits
BitsOf(p) == {r - 1 : r \in {q \in 1..9 : (p \div Bit[q]) % 2 = 1}}
NumOf(x) == SumOver({b + 1 : b \in x}, Bit)

MASK0 == 0..62
MASK1 == 0..17
Top == {9 * i : i \in 1..7}
Bottom == {9 * i : i \in 0..6}
DownMask == [k \in 0..9 |-> Minus(Top, Shr(Top, 9 - k))]
UpMask == [k \in 0..9 |-> Minus(Shl(Bottom, 9 - k), Bottom)]

-----------------------------------------------------------------------------
(* Bitboards as words. *)
Rep(s) == <<{t - 1 : t \in {u \in s : u <= 63}}, {t - 64 : t \in {u \in s : u > 63}}>>
Abs(x) == {b + 1 : b \in x[1]} \cup {b + 64 : b \in x[2]}
Valid(x) == x[1] \subseteq MASK0 /\ x[2] \subseteq MASK1

NotW(x) == IF Variant = "notall" THEN <<Comp(x[1]), Comp(x[2])>> ELSE <<Comp(x[1]) \cap MASK0, Comp(x[2]) \cap MASK1>>
AndW(x, y) == <<x[1] \cap y[1], x[2] \cap y[2]>>
OrW(x, y) == <<x[1] \cup y[1], x[2] \cup y[2]>>
XorW(x, y) == <<Xor(x[1], y[1]), Xor(x[2], y[2])>>
AndNotW(x, y) == <<Comp(x[1]) \cap y[1], Comp(x[2]) \cap y[2]>>
FlipW(x) ==
  IF Variant = "wordflip" THEN <<Shr(Reverse(x[1]), 1), Shr(Reverse(x[2]), 46)>>
  ELSE LET seam == Shr(x[1], 17) \cup Shl(x[2], 46)
           fst == IF Variant = "low" THEN seam ELSE seam \ {0}
       IN <<Reverse(fst), Reverse(Shl(x[1], 46))>>
DownW(x, k) ==
  LET m == IF Variant = "carry" THEN MASK0 ELSE DownMask[k]
  IN <<Shl(x[1], k) \cap m, Low32(Shl(Low32(x[2]), k)) \cap Low32(m)>>
UpW(x, k) == <<Shr(x[1], k) \cap UpMask[k], Shr(Low32(x[2]), k) \cap Low32(UpMask[k])>>
LeftW(x, k) ==
  LET m0 == IF Variant = "leftmask" THEN Word ELSE MASK0 IN
  IF k <= 1 THEN <<Shl(x[1], 9 * k) \cap m0, (Shl(x[2], 9 * k) \cup Shr(x[1], 63 - 9 * k)) \cap MASK1>>
  ELSE IF k <= 7 THEN <<Shl(x[1], 9 * k) \cap m0,
                        IF Variant = "midfile" THEN Shr(x[1], 63 - 9 * k) ELSE Shr(x[1], 63 - 9 * k) \cap MASK1>>
  ELSE <<{}, Shl(x[1], 9 * k - 63) \cap MASK1>>
RightW(x, k) ==
  IF k <= 1 THEN LET r == Shr(x[1], 9 * k) \cup Shl(x[2], 63 - 9 * k)
                 IN <<IF Variant = "rightmask" THEN r ELSE r \cap MASK0, Shr(x[2], 9 * k)>>
  ELSE IF k <= 7 THEN <<Shr(x[1], 9 * k) \cup Shl(x[2], 63 - 9 * k), {}>>
  ELSE <<Shr(x[2], 9 * k - 63), {}>>
SwapW(x) == <<SwapBytes(x[2]), SwapBytes(x[1])>>

\* The least one-bit of the 128-bit number is taken away; it names the square.
PopW(x) ==
  IF x = <<{}, {}>> THEN <<x, 0>>
  ELSE IF x[1] # {} THEN LET b == Least(x[1]) IN <<<<x[1] \ {b}, x[2]>>, b + 1>>
  ELSE LET b == Least(x[2]) IN <<<<{}, x[2] \ {b}>>, IF Variant = "poppos" THEN 64 + b + 1 ELSE 64 + b>>
CountW(x) == Cardinality(x[1]) + Cardinality(x[2])
ContainsW(x, s) == LET i == s - 1 IN IF i < 63 THEN i \in x[1] ELSE (i - 63) \in x[2]
SingleW(s) == LET i == s - 1 IN IF i < 63 THEN <<{i}, {}>> ELSE <<{}, {i - 63}>>
FromFileW(f, p) == IF f <= 7 THEN <<Shl(BitsOf(p), 9 * (f - 1)), {}>> ELSE <<{}, Shl(BitsOf(p), 9 * (f - 8))>>
GetFileW(x, f) ==
  LET r == IF f <= 7 THEN Shr(x[1], 9 * (f - 1)) ELSE Shr(x[2], 9 * (f - 8))
  IN IF Variant = "filecut" THEN NumOf(r \cap 0..8) + (IF 9 \in r THEN 512 ELSE 0) ELSE NumOf(r \cap 0..8)

-----------------------------------------------------------------------------
(* Every set of at most Few squares of Elements, and the complements. *)
RECURSIVE Subsets(_, _)
Subsets(S, n) == IF n = 0 THEN {{}} ELSE LET q == Subsets(S, n - 1) IN q \cup {x \cup {s} : x \in q, s \in S}
Others == {{}, Squares, {1}, {63, 64}, {81}, {s \in Squares : Rank(s) = 5}, {s \in Squares : File(s) = 7}, {s \in Squares : s % 2 = 1}}
Patterns == {0, 1, 256, 341, 511}

Init == /\ \E x \in Subsets(Elements, Few) : w \in {Rep(x), Rep(Squares \ x)}
        /\ done = <<"init">>

Binary == \E y \in Others :
            \/ w' = AndW(w, Rep(y)) /\ done' = <<"and", y>>
            \/ w' = OrW(w, Rep(y)) /\ done' = <<"or", y>>
            \/ w' = XorW(w, Rep(y)) /\ done' = <<"xor", y>>
            \/ w' = AndNotW(w, Rep(y)) /\ done' = <<"andnot", y>>
Complements == w' = NotW(w) /\ done' = <<"not">>
Flips == w' = FlipW(w) /\ done' = <<"flip">>
Shifts == \E k \in 0..9 :
            \/ w' = DownW(w, k) /\ done' = <<"down", k>>
            \/ w' = UpW(w, k) /\ done' = <<"up", k>>
            \/ w' = LeftW(w, k) /\ done' = <<"left", k>>
            \/ w' = RightW(w, k) /\ done' = <<"right", k>>
Pops == LET r == PopW(w) IN w' = r[1] /\ done' = <<"pop", r[2]>>
Files == \E f \in 1..9, p \in Patterns :
           w' = OrW(AndNotW(FromFileW(f, 511), w), FromFileW(f, p)) /\ done' = <<"file", f, p>>
Next == Binary \/ Complements \/ Flips \/ Shifts \/ Pops \/ Files
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
X == Abs(w)
\* Only bits that stand for squares are set, so equal sets are equal words.
Canonical == Valid(w) /\ Rep(X) = w
Reads == /\ CountW(w) = Cardinality(X)
         /\ \A s \in Squares : ContainsW(w, s) <=> s \in X
         /\ (w = <<{}, {}>>) <=> (X = {})
         /\ \A f \in 1..9 : GetFileW(w, f) = FilePattern(X, f)
\* Swapping the bytes loses nothing, and commutes with the operations of sets.
Swaps == /\ SwapW(SwapW(w)) = w
         /\ \A y \in Others : /\ SwapW(AndW(w, Rep(y))) = AndW(SwapW(w), SwapW(Rep(y)))
                              /\ SwapW(XorW(w, Rep(y))) = XorW(SwapW(w), SwapW(Rep(y)))
                              /\ SwapW(AndNotW(w, Rep(y))) = AndNotW(SwapW(w), SwapW(Rep(y)))
Effect ==
  [][CASE done'[1] = "and" -> Abs(w') = And(X, done'[2])
       [] done'[1] = "or" -> Abs(w') = Or(X, done'[2])
       [] done'[1] = "xor" -> Abs(w') = Xor(X, done'[2])
       [] done'[1] = "andnot" -> Abs(w') = AndNot(X, done'[2])
       [] done'[1] = "not" -> Abs(w') = Not(X)
       [] done'[1] = "flip" -> Abs(w') = Flip(X)
       [] done'[1] = "down" -> Abs(w') = ShiftDown(X, done'[2])
       [] done'[1] = "up" -> Abs(w') = ShiftUp(X, done'[2])
       [] done'[1] = "left" -> Abs(w') = ShiftLeft(X, done'[2])
       [] done'[1] = "right" -> Abs(w') = ShiftRight(X, done'[2])
       [] done'[1] = "pop" -> IF X = {} THEN done'[2] = 0 /\ Abs(w') = {}
                              ELSE CanPop(X, done'[2]) /\ Abs(w') = Popped(X, done'[2])
       [] done'[1] = "file" -> Abs(w') = (X \ FileSet(done'[2], 511)) \cup FileSet(done'[2], done'[3])
    ]_vars
SingleIsOne == \A s \in Squares : SingleW(s) = Rep({s})
ASSUME SingleIsOne

Bound == TLCGet("level") <= 1
View == w
=============================================================================
