------------------------------- MODULE TraceMem -------------------------------
(***************************************************************************)
(* The memory primitives of the freestanding library as functions on byte   *)
(* sequences.  lo is where the range begins, counted from 0, inside `pre`.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, SequencesExt

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
F(cond, name) == IF cond THEN {} ELSE {name}

Patched(pre, lo, n, f(_)) == [i \in DOMAIN pre |-> IF lo < i /\ i <= lo + n THEN f(i - lo) ELSE pre[i]]
FirstDiff(x, y, n) == IF \E i \in 1..n : x[i] # y[i] THEN CHOOSE i \in 1..n : x[i] # y[i] /\ \A j \in 1..i - 1 : x[j] = y[j] ELSE 0
Sign(a, b) == IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0
Compared(x, y, n) == LET d == FirstDiff(x, y, n) IN IF d = 0 THEN 0 ELSE Sign(x[d], y[d])

Bad(ev) ==
  CASE ev.f = "cpy" ->
         F(ev.ret = ev.lo, "memcpy returns its destination")
         \cup F(ev.post = Patched(ev.pre, ev.lo, ev.n, LAMBDA i : ev.src[i]), "memcpy")
    [] ev.f = "set" ->
         F(ev.ret = ev.lo, "memset returns its destination")
         \cup F(ev.post = Patched(ev.pre, ev.lo, ev.n, LAMBDA i : ev.c % 256), "memset")
    [] ev.f = "zero" -> F(ev.post = Patched(ev.pre, ev.lo, ev.n, LAMBDA i : 0), "__bzero")
    [] ev.f = "cmp" -> F(ev.r = Compared(ev.x, ev.y, ev.n), "memcmp")

Init == l = 1
Step(bad) == IF bad = {} THEN l' = l + 1 ELSE PrintT(<<"NONCONFORM", l, bad>>) /\ FALSE
Is(f) == l <= Len(Trace) /\ Trace[l].f = f
Copied == Is("cpy") /\ Step(Bad(Trace[l]))
Filled == Is("set") /\ Step(Bad(Trace[l]))
Zeroed == Is("zero") /\ Step(Bad(Trace[l]))
Compare == Is("cmp") /\ Step(Bad(Trace[l]))
Next == Copied \/ Filled \/ Zeroed \/ Compare
Spec == Init /\ [][Next]_l
View == l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
