-------------------------------- MODULE Kahan --------------------------------
(* Compensated sums: the error does not grow with the number of samples,   *)
(* it stays within a few units of rounding of the sum of absolute values.  *)
(* MCKahan.tla checks the bound on a small floating point format.          *)
EXTENDS Rat, Summary

UnitOf(t) == CASE t = "float" -> RPow("1/2", 24) [] t = "longdouble" -> RPow("1/2", 64) [] OTHER -> RPow("1/2", 53)

KahAgree(m, t, f, r) ==
  LET u == UnitOf(t)
      near(v, k, scale) == RFin(r) /\ RNear(r, v, RMul(k, u), scale)
  IN ~IsList(r) /\
     CASE f = "sum" -> near(m.S[1], "6", m.A[1])
       [] f = "sum_of_weights" -> near(m.W, "6", m.W)
       [] f = "sum_of_variates" -> near(m.C, "6", m.CA)
       [] f = "weighted_sum_of_variates" -> near(m.WC, "6", m.CA)
       [] f = "mean" -> RSgn(m.W) > 0 => near(Mu(m), "20", AMom(m, 1))
       [] OTHER -> FALSE
=============================================================================
