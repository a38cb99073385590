------------------------------ MODULE TraceOrd ------------------------------
(***************************************************************************)
(* Validation of comparison tables.  A record holds, for a list of values   *)
(* of one type, a key per value (a tuple of numbers saying all there is to  *)
(* say about the value) and the outcome of every comparison of every pair.  *)
(*                                                                          *)
(* The required order of a keyed type is the lexicographic order of keys;   *)
(* for the other types any total order of the values will do.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP
VARIABLE l
F(cond, name) == IF cond THEN {} ELSE {name}

\* Lexicographic comparison: -1, 0, 1
Sign(n) == IF n < 0 THEN -1 ELSE IF n > 0 THEN 1 ELSE 0
Lex(a, b) ==
  LET n == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b) IN
  IF \E i \in 1..n : a[i] # b[i]
  THEN LET i == CHOOSE i \in 1..n : a[i] # b[i] /\ \A j \in 1..i - 1 : a[j] = b[j] IN Sign(a[i] - b[i])
  ELSE Sign(Len(a) - Len(b))

\* An outcome is cmp + 1 + 4 * flags, with flags
\*   1 ==   2 !=   4 partial_cmp is Some(cmp)   8 <   16 <=   32 >   64 >=   128 equal hashes
Cmp(x) == (x % 4) - 1
Ops(x) == (x \div 4) % 128
SameHash(x) == x \div 512 = 1
OpsFor(c) == CASE c = -1 -> 2 + 4 + 8 + 16
               [] c = 0 -> 1 + 4 + 16 + 64
               [] c = 1 -> 2 + 4 + 32 + 64

\* How many of the values are smaller than the i-th.
RankOf(m, i) == Cardinality({j \in DOMAIN m : Cmp(m[j][i]) = -1})

TableBad(ev) ==
  LET n == Len(ev.keys)
      m == ev.m
      same(i, j) == ev.keys[i] = ev.keys[j]
      rank == [i \in 1..n |-> RankOf(m, i)]
  IN F(Len(m) = n /\ \A i \in 1..n : Len(m[i]) = n, "incomplete table")
     \cup F(\A i, j \in 1..n : same(i, j) <=> Cmp(m[i][j]) = 0, "equal in order but not in value, or the reverse")
     \cup F(\A i, j \in 1..n : Ops(m[i][j]) = OpsFor(IF same(i, j) THEN 0 ELSE Cmp(m[i][j])), "comparison operators disagree")
     \cup F(\A i, j \in 1..n : same(i, j) => SameHash(m[i][j]), "equal values hash differently")
     \cup F(\A i, j \in 1..n : Cmp(m[i][j]) = Sign(rank[i] - rank[j]), "not a total order")
     \cup (IF ev.keyed = 1
           THEN F(\A i, j \in 1..n : Cmp(m[i][j]) = Lex(ev.keys[i], ev.keys[j]), "not the required order")
           ELSE {})
     \cup (IF "order" \in DOMAIN ev
           THEN F(\A i \in 1..n - 1 : Cmp(m[ev.order[i]][ev.order[i + 1]]) # 1, "sorting")
                \cup F({ev.order[i] : i \in DOMAIN ev.order} = 1..n /\ Len(ev.order) = n, "sorting loses values")
           ELSE {})

\* A stretch of all the values of a type in the required order: neighbours compared both ways, and each value
\* with another one (`with` gives the place of it).
ChainBad(ev) ==
  LET n == Len(ev.keys)
      is(code, c) == Cmp(code) = c /\ Ops(code) = OpsFor(c)
  IN F(Len(ev.up) = n - 1 /\ Len(ev.down) = n - 1 /\ Len(ev.with) = n /\ Len(ev.other) = n /\ Len(ev.self) = n, "incomplete chain")
     \cup F(\A i \in 1..n - 1 : Lex(ev.keys[i], ev.keys[i + 1]) = -1, "keys of a chain")
     \cup F(\A i \in 1..n - 1 : is(ev.up[i], -1) /\ is(ev.down[i], 1), "neighbours")
     \cup F(\A i \in 1..n : is(ev.other[i], Lex(ev.keys[i], ev.keys[ev.with[i]])), "not the required order")
     \cup F(\A i \in 1..n : is(ev.self[i], 0) /\ SameHash(ev.self[i]), "a value and its copy")

Bad(ev) == IF ev.f = "chain" THEN ChainBad(ev) ELSE TableBad(ev)

Init == l = 1
Compare == /\ l <= Len(Trace)
           /\ LET bad == Bad(Trace[l]) IN
              IF bad = {} THEN l' = l + 1 ELSE PrintT(<<"NONCONFORM", l, bad, Trace[l].ty>>) /\ FALSE
Spec == Init /\ [][Compare]_l
View == l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
