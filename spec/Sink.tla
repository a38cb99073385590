--------------------------------- MODULE Sink ---------------------------------
(***************************************************************************)
(* Writing text to a sink that may refuse.  The machine below is the        *)
(* contract: a writer offers chunks; each is accepted, or refused after a   *)
(* part of it was taken; after a refusal nothing more may be offered; the   *)
(* writer then reports failure.  Success is reported only when everything   *)
(* was accepted.  A run is the list of chunks offered with what the sink    *)
(* did (w), and what was reported (r).                                      *)
(***************************************************************************)
EXTENDS Sequences, SequencesExt, Naturals
LOCAL Unless(cond, name) == IF cond THEN {} ELSE {name}

\* The machine.
Fresh == [got |-> "", refused |-> FALSE, wrong |-> {}]
Offer(s, text, w) ==        \* w = <<chunk, how much of it was taken, accepted?>>
  LET taken == s.got \o SubSeq(w[1], 1, w[2])
      ahead == s.got \o w[1]
  IN [got |-> taken,
      refused |-> s.refused \/ w[3] = 0,
      wrong |-> s.wrong
                \cup Unless(~s.refused, "a write after a refused one")
                \cup Unless(s.refused \/ (Len(ahead) <= Len(text) /\ SubSeq(text, 1, Len(ahead)) = ahead),
                            "what was written is not the text")]
Run(text, ev) ==
  LET s == FoldLeft(LAMBDA a, w : Offer(a, text, w), Fresh, ev.w)
  IN s.wrong
     \cup Unless((ev.r = 1) = ~s.refused, IF s.refused THEN "a refused write went unreported" ELSE "failure reported although nothing was refused")
     \cup Unless(s.refused \/ s.got = text, "incomplete text reported as success")
=============================================================================
