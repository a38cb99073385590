-------------------------------- MODULE Hands --------------------------------
(***************************************************************************)
(* A hand: a count in 0..255 for each of the seven hand kinds.             *)
(***************************************************************************)
EXTENDS ShogiBase

None == -1
Fresh == <<0, 0, 0, 0, 0, 0, 0>>
Count(h, k) == IF IsHandKind(k) THEN h[k] ELSE None
Counts(h) == [k \in 1..14 |-> Count(h, k)]

CanAdd(h, k) == IsHandKind(k)
Added(h, k) == IF CanAdd(h, k) THEN [h EXCEPT ![k] = (@ + 1) % 256] ELSE h
CanRemove(h, k) == IsHandKind(k) /\ Count(h, k) > 0
Removed(h, k) == IF CanRemove(h, k) THEN [h EXCEPT ![k] = @ - 1] ELSE h
=============================================================================
