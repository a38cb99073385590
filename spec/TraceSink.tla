------------------------------ MODULE TraceSink ------------------------------
(***************************************************************************)
(* Recorded runs of writing values into sinks that may refuse, judged by    *)
(* the machine of Sink.                                                     *)
(***************************************************************************)
EXTENDS Notation, Sink, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP
VARIABLES l, full           \* the text of the value being written

TextOf(ev) ==
  CASE ev.t = "as it is" -> ev.v      \* renamed: only what continues the text matters
    [] ev.t = "sq" -> SquareText(ev.v)
    [] ev.t = "kind" -> KindText[ev.v]
    [] ev.t = "piece" -> PieceText(ev.v)
    [] ev.t = "color" -> ColorText(ev.v)
    [] ev.t \in {"mv", "cmv"} -> MoveText([drop |-> ev.v[1], a |-> ev.v[2], to |-> ev.v[3], pro |-> ev.v[4]])
    [] ev.t = "hands" -> HandsText(ev.v)
    [] ev.t = "pos" -> SfenText([board |-> ev.b, hands |-> ev.h, side |-> ev.c, ply |-> ev.n])

Init == l = 1 /\ full = ""
Is(S) == l <= Len(Trace) /\ Trace[l].e \in S
Value == Is({"new"}) /\ l' = l + 1 /\ full' = TextOf(Trace[l])
Written == /\ Is({"run"})
           /\ LET bad == Run(full, Trace[l]) IN
              IF bad = {} THEN l' = l + 1 /\ UNCHANGED full
              ELSE PrintT(<<"NONCONFORM", l, bad>>) /\ FALSE
Next == Value \/ Written
Spec == Init /\ [][Next]_<<l, full>>
View == l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
