------------------------------ MODULE AllocImpl ------------------------------
(***************************************************************************)
(* The allocator of the freestanding library as a concurrent algorithm:     *)
(* every thread reads the number of bytes remaining, computes the place of  *)
(* its block, and publishes the new number with a compare-and-swap, which   *)
(* it repeats from the read when another thread was faster (or, since it is *)
(* a weak compare-and-swap, for no reason at all).                          *)
(*                                                                          *)
(* Variant selects the algorithm: "cas" is the one in the code; the others  *)
(* are broken, and each must violate one of the invariants (they show that  *)
(* the invariants can fail):                                                *)
(*   "store"    publishes without comparing                                 *)
(*   "early"    lets the overaligned request take its bytes before refusing *)
(*   "mask"     rounds the size, not the place                              *)
(*   "wrap"     compares after subtracting (in unsigned arithmetic)         *)
(*   "retry"    keeps the place computed before a failed compare-and-swap   *)
(* Base is the address of the arena: the code needs it to be a multiple of  *)
(* the greatest alignment.                                                  *)
(***************************************************************************)
EXTENDS Arena, TLC
CONSTANTS Threads, Size, Sizes, Aligns, Most, Calls, Base, Variant

VARIABLES remaining, pc, req, seen, mine, got, twice, left
vars == <<remaining, pc, req, seen, mine, got, twice, left>>

W == 2 * Size + 16 \* word size of the "wrap" variant
RoundDown(x, al) == x - (x % al)
RoundUp(x, al) == RoundDown(x + al - 1, al)
Place(r, n, al) ==
  CASE Variant = "mask" -> r - RoundUp(n, 2)
    [] Variant = "wrap" -> RoundDown((r - n) % W, al)
    [] OTHER -> RoundDown(r - n, al)
Fits(r, n, al) ==
  CASE Variant = "mask" -> RoundUp(n, 2) <= r
    [] Variant = "wrap" -> (r - n) % W <= W - 1
    [] OTHER -> n <= r

NoReq == <<0, 1>>
Init ==
  /\ remaining = Size
  /\ pc = [t \in Threads |-> "idle"]
  /\ req = [t \in Threads |-> NoReq]
  /\ seen = [t \in Threads |-> 0]
  /\ mine = [t \in Threads |-> 0]
  /\ got = {}          \* blocks granted: <<place, size, alignment>>
  /\ twice = FALSE     \* whether a block was granted that was not free
  /\ left = Calls

Done(t) ==
  /\ pc' = [pc EXCEPT ![t] = "idle"]
  /\ req' = [req EXCEPT ![t] = NoReq]
  /\ seen' = [seen EXCEPT ![t] = 0]
  /\ mine' = [mine EXCEPT ![t] = 0]

\* An overaligned request is refused at once.
Call(t) ==
  /\ pc[t] = "idle" /\ left > 0
  /\ left' = left - 1
  /\ \E n \in Sizes, al \in Aligns :
       IF al > Most /\ Variant # "early" THEN UNCHANGED <<pc, req>>
       ELSE /\ req' = [req EXCEPT ![t] = <<n, al>>]
            /\ pc' = [pc EXCEPT ![t] = "read"]
  /\ UNCHANGED <<remaining, seen, mine, got, twice>>

Read(t) ==
  /\ pc[t] = "read"
  /\ Fits(remaining, req[t][1], req[t][2])
  /\ seen' = [seen EXCEPT ![t] = remaining]
  /\ pc' = [pc EXCEPT ![t] = "swap"]
  /\ mine' = [mine EXCEPT ![t] = Place(remaining, req[t][1], req[t][2])]
  /\ UNCHANGED <<remaining, req, got, twice, left>>

Refuse(t) ==
  /\ pc[t] = "read"
  /\ ~Fits(remaining, req[t][1], req[t][2])
  /\ Done(t)
  /\ UNCHANGED <<remaining, got, twice, left>>

Swap(t) ==
  /\ pc[t] = "swap"
  /\ (Variant = "store" \/ remaining = seen[t])
  /\ remaining' = mine[t]
  /\ IF req[t][2] > Most THEN UNCHANGED <<got, twice>>
     ELSE LET b == <<Base + mine[t], req[t][1], req[t][2]>> IN
          /\ got' = got \cup {b}
          /\ twice' = (twice \/ \E c \in got : ~Apart(<<b[1], b[2]>>, <<c[1], c[2]>>))
  /\ Done(t)
  /\ UNCHANGED left

\* Another thread was faster, or the swap failed spuriously.
SwapFails(t) ==
  /\ pc[t] = "swap" /\ Variant # "store"
  /\ IF Variant = "retry"
     THEN /\ seen' = [seen EXCEPT ![t] = remaining]
          /\ UNCHANGED <<pc, mine>>
     ELSE /\ pc' = [pc EXCEPT ![t] = "read"]
          /\ seen' = [seen EXCEPT ![t] = 0]
          /\ mine' = [mine EXCEPT ![t] = 0]
  /\ UNCHANGED <<remaining, req, got, twice, left>>

Next == \E t \in Threads : Call(t) \/ Read(t) \/ Refuse(t) \/ Swap(t) \/ SwapFails(t)
Spec == Init /\ [][Next]_vars

InvAligned == \A b \in got : Aligned(b[1], b[3])
InvInside == \A b \in got : Inside(b[1], b[2], Base, Base + Size)
InvDisjoint == ~twice
InvOveraligned == \A b \in got : b[3] <= Most
InvRange == remaining \in 0..Size
\* What is used up is used up by blocks that were granted: a refusal takes nothing, so nothing
\* that surely fits is ever refused.
RECURSIVE Total(_)
Total(S) == IF S = {} THEN 0 ELSE LET b == CHOOSE x \in S : TRUE IN Padded(b[2], b[3]) + Total(S \ {b})
InvNothingLost == Size - remaining <= Total(got)
\* The number remaining never grows.
OnlyDown == [][remaining' <= remaining]_vars
Symm == Permutations(Threads)
=============================================================================
