------------------------------ MODULE Summary ------------------------------
(* Summary statistics of a stream of samples x with weights w and an       *)
(* optional covariate c: count, sums, extrema, means, moments, variance,   *)
(* skewness, kurtosis, covariance and error of the mean, weighted or not   *)
(* (an unweighted stream has w = 1).                                       *)
(*                                                                         *)
(* The state m holds exact power sums; the definitions below are the       *)
(* documented formulas over the whole history.  MCSummary.tla checks that  *)
(* these closed forms equal the textbook definitions, and that the         *)
(* incremental ("immediate") recursions refine them.                       *)
EXTENDS Rat

SumK == 5                                     \* highest power kept

SumInit == [n |-> "0", W |-> "0", S |-> [k \in 1..SumK |-> "0"], A |-> [k \in 1..SumK |-> "0"],
            U |-> "0", UA |-> "0", WC |-> "0", C |-> "0", CA |-> "0", XC |-> "0", XCA |-> "0",
            mn |-> "inf", mx |-> "-inf"]

\* push sample x with weight w and covariate c, k times in a row
SumStep(m, x, w, c, k) ==
  LET kw == RMul(R(k), w)
      ax == RAbs(x)
  IN [n  |-> RAdd(m.n, R(k)),
      W  |-> RAdd(m.W, kw),
      S  |-> [j \in 1..SumK |-> RAdd(m.S[j], RMul(kw, RPow(x, j)))],
      A  |-> [j \in 1..SumK |-> RAdd(m.A[j], RMul(kw, RPow(ax, j)))],
      U  |-> RAdd(m.U, RMul(R(k), x)),
      UA |-> RAdd(m.UA, RMul(R(k), ax)),
      C  |-> RAdd(m.C, RMul(R(k), c)),
      CA |-> RAdd(m.CA, RMul(kw, RAbs(c))),
      WC |-> RAdd(m.WC, RMul(kw, c)),
      XC |-> RAdd(m.XC, RMul(kw, RMul(x, c))),
      XCA |-> RAdd(m.XCA, RMul(kw, RMul(ax, RAbs(c)))),
      mn |-> IF RLt(x, m.mn) THEN x ELSE m.mn,
      mx |-> IF RLt(m.mx, x) THEN x ELSE m.mx]

Mom(m, k)  == RDiv(m.S[k], m.W)               \* k-th raw moment (weighted by W; W = n when unweighted)
AMom(m, k) == RDiv(m.A[k], m.W)
Mu(m)      == Mom(m, 1)
Var(m)     == RSub(Mom(m, 2), RPow(Mu(m), 2))
Third(m)   == RAdd(RSub(Mom(m, 3), RMul("3", RMul(Mom(m, 2), Mu(m)))), RMul("2", RPow(Mu(m), 3)))
Fourth(m)  == RSub(RAdd(RSub(Mom(m, 4), RMul("4", RMul(Mom(m, 3), Mu(m)))),
                        RMul("6", RMul(Mom(m, 2), RPow(Mu(m), 2)))), RMul("3", RPow(Mu(m), 4)))
Cov(m)     == RSub(RDiv(m.XC, m.W), RMul(Mu(m), RDiv(m.WC, m.W)))

\* relative rounding allowance for a sample type
TolOf(t) == IF t = "float" THEN "1/5000" ELSE "1/1000000000"

\* a sample type can only hold what it can represent: sums of powers beyond this are the user's overflow
MaxOf(t) == CASE t = "short" -> "32767" [] t = "int" -> "2147483647" [] t = "unsigned" -> "4294967295"
              [] t = "longlong" -> "9223372036854775807" [] t = "float" -> R("1e37") [] OTHER -> R("1e300")
Holds(m, t, k) == RLe(m.A[k], MaxOf(t))

WellConditioned(m) == RSgn(Var(m)) > 0 /\ RLt(Mom(m, 2), RMul("10000", Var(m)))

\* is r an acceptable result for feature f of sample type t in state m ?
SumAgree(m, t, f, r) ==
  LET tol == TolOf(t)
      near(v, scale) == RFin(r) /\ RNear(r, v, tol, scale)
      ne == m.n # "0"                         \* nothing but count and sums is defined on an empty stream
      pw == RSgn(m.W) > 0
      ok(k) == pw /\ Holds(m, t, k)
  IN CASE f = "count" -> REq(r, m.n)
       [] f = "sum" -> Holds(m, t, 1) => near(m.S[1], m.A[1])
       [] f = "min" -> ne => REq(r, m.mn)
       [] f = "max" -> ne => REq(r, m.mx)
       [] f = "mean" -> ok(1) => near(Mu(m), AMom(m, 1))
       [] f = "moment1" -> ok(1) => near(Mom(m, 1), AMom(m, 1))
       [] f = "moment2" -> ok(2) => near(Mom(m, 2), AMom(m, 2))
       [] f = "moment3" -> ok(3) => near(Mom(m, 3), AMom(m, 3))
       [] f = "moment4" -> ok(4) => near(Mom(m, 4), AMom(m, 4))
       [] f = "moment5" -> ok(5) => near(Mom(m, 5), AMom(m, 5))
       [] f = "variance" -> ok(2) => near(Var(m), RAdd(AMom(m, 2), RPow(Mu(m), 2)))
       [] f = "error_of_mean" ->
            (RLt("1", m.n) /\ ok(2) /\ WellConditioned(m)) =>
               /\ RFin(r) /\ RSgn(R(r)) >= 0
               /\ RNear(RMul(r, r), RDiv(Var(m), RSub(m.n, "1")), RMul("4", tol), RDiv(Mom(m, 2), RSub(m.n, "1")))
       [] f = "skewness" ->
            (ok(3) /\ WellConditioned(m)) =>
               LET d == RMul(Var(m), RSqrt(Var(m)))
                   sc == RAdd(RAdd(AMom(m, 3), RMul("3", RMul(AMom(m, 2), AMom(m, 1)))), RMul("2", RPow(AMom(m, 1), 3)))
               IN near(RDiv(Third(m), d), RMul("100", RAdd("1", RDiv(sc, d))))
       [] f = "kurtosis" ->
            (ok(4) /\ WellConditioned(m)) =>
               LET d == RPow(Var(m), 2)
                   sc == RAdd(RAdd(AMom(m, 4), RMul("4", RMul(AMom(m, 3), AMom(m, 1)))),
                              RMul("9", RMul(AMom(m, 2), RPow(AMom(m, 1), 2))))
               IN near(RSub(RDiv(Fourth(m), d), "3"), RMul("100", RAdd("1", RDiv(sc, d))))
       [] f = "sum_of_weights" -> near(m.W, m.W)
       [] f = "mean_of_weights" -> ne => near(RDiv(m.W, m.n), RDiv(m.W, m.n))
       [] f = "sum_of_variates" -> near(m.C, RAdd(m.CA, RAbs(m.C)))
       [] f = "mean_of_variates" -> ne => near(RDiv(m.C, m.n), RDiv(RAdd(m.CA, RAbs(m.C)), m.n))
       [] f = "weighted_sum_of_variates" -> near(m.WC, m.CA)
       [] f = "weighted_mean_of_variates" -> pw => near(RDiv(m.WC, m.W), RDiv(m.CA, m.W))
       [] f = "covariance" -> pw => near(Cov(m), RAdd(RDiv(m.XCA, m.W), RMul(AMom(m, 1), RDiv(m.CA, m.W))))
       [] OTHER -> FALSE
=============================================================================
