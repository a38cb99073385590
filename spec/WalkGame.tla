------------------------------- MODULE WalkGame -------------------------------
(***************************************************************************)
(* Every sequence of operations on a game up to a length, to be carried out *)
(* by the code. A row: operation (0 withdraw, r resolve as r, 6 clone) and  *)
(* the resolution afterwards.                                               *)
(***************************************************************************)
EXTENDS Game, Json, IOUtils
CONSTANT Length

VARIABLES g, trail
vars == <<g, trail>>
Do(op, h) == g' = h /\ trail' = Append(trail, <<op, h.res>>)
Init == g = FreshGame /\ trail = <<<<6, NoResolution>>>>
Next == /\ Len(trail) <= Length
        /\ \/ \E r \in Resolutions : Do(r, ResolvedAs(g, r))
           \/ Do(0, Unresolved(g))
           \/ Do(6, g)
Spec == Init /\ [][Next]_vars
Ops(t) == [i \in 1..Cardinality({j \in 2..Len(t) : t[j][1] # 6}) |->
             SelectSeq(Tail(t), LAMBDA x : x[1] # 6)[i][1]]
IsLast == g.res = LastSet(Ops(trail))
PositionStays == g.pos = StartPosition
Emit == Len(trail) > Length =>
          Serialize(ToJson(trail) \o "\n", IOEnv.OUT,
                    [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
