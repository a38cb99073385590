------------------------------- MODULE WalkHand -------------------------------
(***************************************************************************)
(* Behaviours of Hands.tla over two registers, to be carried out by the     *)
(* code. A row: operation, register, kind or register, outcome, and what    *)
(* all fourteen kinds count to afterwards (-1: refused).                    *)
(***************************************************************************)
EXTENDS Hands, Randomization, Json, IOUtils

Length == 120
Regs == 1..2
VARIABLES hand, trail
vars == <<hand, trail>>

Row(op, d, k, ok, h) == <<op, d, k, IF ok THEN 1 ELSE 0>> \o Counts(h)
Do(op, d, k, ok, h) == hand' = [hand EXCEPT ![d] = h] /\ trail' = Append(trail, Row(op, d, k, ok, h))

Init == hand = [d \in Regs |-> Fresh] /\ trail = <<Row(0, 1, 0, TRUE, Fresh)>>
\* Several additions at once, so that counts get large: the row says how many in place of the outcome.
AddedTimes(h, k, n) == IF CanAdd(h, k) THEN [h EXCEPT ![k] = (@ + n) % 256] ELSE h
Many(d, k, n) == LET h == AddedTimes(hand[d], k, n) IN
                 hand' = [hand EXCEPT ![d] = h] /\ trail' = Append(trail, <<4, d, k, n>> \o Counts(h))
Last == Len(trail) = Length /\ Do(3, 1, 2, TRUE, hand[2])
Next == \/ Last
        \/ /\ Len(trail) < Length
           /\ \E d \in RandomSubset(1, Regs), k \in RandomSubset(2, Kinds) :
                \/ Do(1, d, k, CanAdd(hand[d], k), Added(hand[d], k))
                \/ Do(2, d, k, CanRemove(hand[d], k), Removed(hand[d], k))
                \/ Do(3, d, 3 - d, TRUE, hand[3 - d])
                \/ \E n \in RandomSubset(1, {3, 17, 127, 254, 255, 256}) : Many(d, k, n)
Spec == Init /\ [][Next]_vars
Emit == Len(trail) > Length =>
          Serialize(ToJson(trail) \o "\n", IOEnv.OUT,
                    [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
