------------------------------ MODULE Rolling ------------------------------
(* Rolling window statistics: everything is a function of the last N       *)
(* samples.  MCRolling.tla checks that a ring buffer of N+1 samples with   *)
(* incremental sums refines this definition.                               *)
EXTENDS Rat, Summary, SequencesExt, FiniteSets

RollInit(p) == [n |-> "0", N |-> RFloor(p.N), win |-> <<>>, big |-> "0"]

LastN(s, N) == IF Len(s) <= N THEN s ELSE SubSeq(s, Len(s) - N + 1, Len(s))
\* push x, k times in a row
RollStep(m, x, k) ==
  LET reps == IF RLt(R(m.N), k) THEN m.N ELSE RFloor(k)
  IN [n |-> RAdd(m.n, k), N |-> m.N,
      win |-> LastN(m.win \o [j \in 1..reps |-> x], m.N),
      big |-> RMax(m.big, RAbs(x))]

SeqEq(a, b) == Len(a) = Len(b) /\ \A j \in 1..Len(a) : REq(a[j], b[j])

RollAgree(m, t, f, r) ==
  LET ps == RPowSums(m.win, 4)                       \* <<n, S1, .., S4>>
      c == R(Len(m.win))
      tol == TolOf(t)
      N == R(m.N + 1)
      ne == Len(m.win) > 0
      fits(k) == RLe(RMul(N, RPow(m.big, k)), MaxOf(t))
      near(v, scale) == RFin(r) /\ RNear(r, v, tol, scale)
      mean == RDiv(ps[2], c)
  IN CASE f = "rolling_window" -> IsList(r) /\ SeqEq(r, m.win)
       [] f = "rolling_count" -> REq(r, c)
       [] f = "count" -> REq(r, m.n)
       [] f = "rolling_sum" -> fits(1) => near(ps[2], RMul(N, m.big))
       [] f = "rolling_mean" -> (ne /\ fits(1)) => near(mean, m.big)
       [] f = "rolling_moment2" -> (ne /\ fits(2)) => near(RDiv(ps[3], c), RMul(N, RPow(m.big, 2)))
       [] f = "rolling_moment3" -> (ne /\ fits(3)) => near(RDiv(ps[4], c), RMul(N, RPow(m.big, 3)))
       [] f = "rolling_moment4" -> (ne /\ fits(4)) => near(RDiv(ps[5], c), RMul(N, RPow(m.big, 4)))
       [] f = "rolling_variance" ->
            IF Len(m.win) >= 2
            THEN fits(2) => near(RDiv(RSub(ps[3], RMul(mean, ps[2])), RSub(c, "1")), RMul(N, RPow(m.big, 2)))
            ELSE Len(m.win) = 1 => (r = "nan" \/ REq(r, "0"))
       [] OTHER -> FALSE
=============================================================================
