------------------------------- MODULE Bitboards -------------------------------
(***************************************************************************)
(* Bitboards are subsets of the 81 squares.                                *)
(***************************************************************************)
EXTENDS ShogiBase

Not(x) == Squares \ x
And(x, y) == x \cap y
Or(x, y) == x \cup y
Xor(x, y) == (x \ y) \cup (y \ x)
AndNot(x, y) == y \ x                     \* `!x & y`
Flip(x) == {FlipSq(s) : s \in x}

\* Every square moved by df files and dr ranks; those that leave the board are dropped.
Shift(x, df, dr) == {t \in Squares : OnBoard(File(t) - df, Rank(t) - dr)
                                     /\ Sq(File(t) - df, Rank(t) - dr) \in x}
\* "Up" is towards rank 1, "left" towards file 9 (the board seen by Black).
ShiftUp(x, k) == Shift(x, 0, -k)
ShiftDown(x, k) == Shift(x, 0, k)
ShiftLeft(x, k) == Shift(x, k, 0)
ShiftRight(x, k) == Shift(x, -k, 0)

\* A file pattern: bit r-1 stands for rank r.
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
Bit == [r \in 1..9 |-> Pow2(r - 1)]
FileSet(f, p) == {Sq(f, r) : r \in {q \in 1..9 : (p \div Bit[q]) % 2 = 1}}
RECURSIVE SumOver(_, _)
SumOver(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumOver(S \ {x}, f)
FilePattern(x, f) == SumOver({r \in 1..9 : Sq(f, r) \in x}, Bit)

\* Taking one element: which one is left open.
CanPop(x, s) == s \in x
Popped(x, s) == x \ {s}
=============================================================================
