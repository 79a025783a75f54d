------------------------------- MODULE Vector -------------------------------
(* Samples that are vectors, arrays or complex numbers: every statistic is *)
(* the scalar statistic of each component; the covariance of vectors is    *)
(* the matrix of the covariances of their components.                      *)
EXTENDS Rat, Summary, Rolling

Dim(p) == RFloor(p.dim)
CDim(p) == RFloor(p.cdim)
VecInit(p) == [j \in 1..Dim(p) |-> SumInit]
VecStep(m, x, w, n) == [j \in 1..Len(m) |-> SumStep(m[j], x[j], w, "0", n)]
VecRInit(p) == [j \in 1..Dim(p) |-> RollInit(p)]
VecRStep(m, x, n) == [j \in 1..Len(m) |-> RollStep(m[j], x[j], n)]
\* m[a][b]: component a of the variate with component b of the sample
VCovInit(p) == [a \in 1..CDim(p) |-> [b \in 1..Dim(p) |-> SumInit]]
VCovStep(m, x, w, c, n) == [a \in 1..Len(m) |-> [b \in 1..Len(m[a]) |-> SumStep(m[a][b], x[b], w, c[a], n)]]

VecAgree(m, t, f, r) ==
  IF f \in {"sum_of_weights"} THEN ~IsList(r) /\ SumAgree(m[1], t, f, r)
  ELSE /\ IsList(r)
       /\ Len(r) = Len(m)
       /\ \A j \in 1..Len(m) : SumAgree(m[j], t, f, r[j])
VecRAgree(m, t, f, r) ==
  IF f = "rolling_count" THEN ~IsList(r) /\ RollAgree(m[1], t, f, r)
  ELSE /\ IsList(r)
       /\ Len(r) = Len(m)
       /\ \A j \in 1..Len(m) : RollAgree(m[j], t, f, r[j])
\* one: the sample is a scalar
VCovAgree(m, t, one, f, r) ==
  LET cd == Len(m)
      d == Len(m[1])
  IN CASE f = "mean" -> IF one THEN ~IsList(r) /\ SumAgree(m[1][1], t, f, r)
                        ELSE IsList(r) /\ Len(r) = d /\ \A b \in 1..d : SumAgree(m[1][b], t, f, r[b])
       [] f \in {"mean_of_variates", "weighted_mean_of_variates"} ->
            IsList(r) /\ Len(r) = cd /\ \A a \in 1..cd : SumAgree(m[a][1], t, f, r[a])
       [] f = "covariance" -> IsList(r) /\ Len(r) = cd * d /\ \A a \in 1..cd : \A b \in 1..d : SumAgree(m[a][b], t, f, r[(a - 1) * d + b])
       [] OTHER -> FALSE
=============================================================================
