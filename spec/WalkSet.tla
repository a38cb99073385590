-------------------------------- MODULE WalkSet --------------------------------
(***************************************************************************)
(* Behaviours of Bitboards.tla over three registers, to be carried out by   *)
(* the code. A step is a row of numbers: operation, register written, two   *)
(* arguments, and the members the register must have.                       *)
(***************************************************************************)
EXTENDS Bitboards, Randomization, Json, IOUtils, SequencesExt

Length == 80
Regs == 1..3
VARIABLES reg, trail
vars == <<reg, trail>>

Some(n, S) == RandomSubset(n, S)
Row(op, d, x, y, s) == <<op, d, x, y>> \o SetToSeq(s)
Do(op, d, x, y, s) == reg' = [reg EXCEPT ![d] = s] /\ trail' = Append(trail, Row(op, d, x, y, s))

Two(d, x, y) == \/ Do(1, d, x, y, And(reg[x], reg[y]))
                \/ Do(2, d, x, y, Or(reg[x], reg[y]))
                \/ Do(3, d, x, y, Xor(reg[x], reg[y]))
                \/ Do(4, d, x, y, AndNot(reg[x], reg[y]))
One(d, x) == Do(5, d, x, 0, Not(reg[x])) \/ Do(6, d, x, 0, Flip(reg[x])) \/ Do(15, d, x, 0, reg[x])
Shifted(d, x, k) == \/ Do(7, d, x, k, ShiftUp(reg[x], k)) \/ Do(8, d, x, k, ShiftDown(reg[x], k))
                    \/ Do(9, d, x, k, ShiftLeft(reg[x], k)) \/ Do(10, d, x, k, ShiftRight(reg[x], k))
Square1(d, s) == Do(11, d, s, 0, reg[d] \cup {s}) \/ Do(12, d, s, 0, {s}) \/ Do(16, d, s, 0, Xor(reg[d], {s}))
Filed(d, f, p) == Do(13, d, f, p, FileSet(f, p)) \/ Do(14, d, f, FilePattern(reg[d], f), reg[d])

Init == reg = [d \in Regs |-> {}] /\ trail = <<Row(0, 1, 0, 0, {})>>
\* A set taken from nowhere: the code is given its members.
Load == \E d \in Regs, n \in Some(1, 0..81) : \E s \in {Some(n, Squares)} : Do(17, d, 0, 0, s)
Final == Len(trail) = Length /\ Do(15, 1, 2, 0, reg[2])
Next == \/ Final
        \/ /\ Len(trail) < Length
           /\ \/ \E d \in Some(1, Regs), x \in Some(1, Regs), y \in Some(1, Regs) : Two(d, x, y)
              \/ \E d \in Some(1, Regs), x \in Some(1, Regs) : One(d, x)
              \/ \E d \in Some(1, Regs), x \in Some(1, Regs), k \in Some(1, 0..9) : Shifted(d, x, k)
              \/ \E d \in Some(1, Regs), s \in Some(1, Squares) : Square1(d, s)
              \/ \E d \in Some(1, Regs), f \in Some(1, 1..9), p \in Some(1, 0..511) : Filed(d, f, p)
              \/ Load
Spec == Init /\ [][Next]_vars
Emit == Len(trail) > Length =>
          Serialize(ToJson(trail) \o "\n", IOEnv.OUT,
                    [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
