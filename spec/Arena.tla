-------------------------------- MODULE Arena --------------------------------
(***************************************************************************)
(* Memory handed out from an arena [lo, hi): what any allocator that never  *)
(* takes anything back owes its callers.  A block is <<place, size>>.       *)
(***************************************************************************)
EXTENDS Integers, FiniteSets

MaxAlign == 4096
Apart(b, c) == b[1] + b[2] <= c[1] \/ c[1] + c[2] <= b[1]
Aligned(at, al) == at % al = 0
Inside(at, n, lo, hi) == lo <= at /\ at <= hi - n
DisjointFrom(blocks, at, n) == \A b \in blocks : Apart(b, <<at, n>>)
\* Memory an allocator may use up for a request: the block and what aligns it.
Padded(n, al) == n + al - 1
\* A request that has to be granted, with `used` already used up at most.
SurelyFits(n, al, used, lo, hi, max) == al <= max /\ n <= hi - lo /\ used + Padded(n, al) <= hi - lo
=============================================================================
