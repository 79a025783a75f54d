------------------------------ MODULE MCSummary ------------------------------
(* Exhaustive check, on all short weighted streams over small values, that *)
(* the closed forms of Summary are the textbook definitions, that the      *)
(* incremental recursions of the library refine them, and that the results *)
(* satisfy the laws a user expects.                                        *)
EXTENDS Summary, Sequences, SequencesExt, FiniteSets, Integers
CONSTANTS MaxLen, Xs, Ws, Cs

VARIABLES hist, m, imm
vars == <<hist, m, imm>>

Sum(F(_)) == FoldLeft(LAMBDA a, e : RAdd(a, F(e)), "0", hist)
Wtot == Sum(LAMBDA e : e[2])
Avg(F(_)) == RDiv(Sum(LAMBDA e : RMul(e[2], F(e))), Wtot)
mean == Avg(LAMBDA e : e[1])
meanC == Avg(LAMBDA e : e[3])
central(k) == Avg(LAMBDA e : RPow(RSub(e[1], mean), k))

Init == /\ hist = <<>> /\ m = SumInit
        /\ imm = [mean |-> "0", var |-> "0", cmean |-> "0", cov |-> "0"]

\* the recursions of immediate mean, variance and covariance (weight 1: the unweighted ones)
Step(i, x, w, c, n, W) ==
  LET mu == RDiv(RAdd(RMul(i.mean, RSub(W, w)), RMul(x, w)), W)
      nu == RDiv(RAdd(RMul(i.cmean, RSub(W, w)), RMul(c, w)), W)
      r  == RDiv(RSub(W, w), W)
      q  == RDiv(w, RSub(W, w))
  IN IF n = 1 THEN [mean |-> mu, var |-> "0", cmean |-> nu, cov |-> "0"]
     ELSE [mean |-> mu, cmean |-> nu,
           var |-> RAdd(RMul(i.var, r), RMul(RPow(RSub(x, mu), 2), q)),
           cov |-> RAdd(RMul(i.cov, r), RMul(RMul(RSub(c, nu), RSub(x, mu)), q))]

Next == /\ Len(hist) < MaxLen
        /\ \E x \in Xs, w \in Ws, c \in Cs :
             /\ RSgn(RAdd(m.W, w)) > 0
             /\ hist' = Append(hist, <<x, w, c>>)
             /\ m' = SumStep(m, x, w, c, "1")
             /\ imm' = Step(imm, x, w, c, Len(hist) + 1, RAdd(m.W, w))
Spec == Init /\ [][Next]_vars

ne == hist # <<>>
Closed == /\ m.n = R(Len(hist)) /\ m.W = Wtot
          /\ \A k \in 1..SumK : m.S[k] = Sum(LAMBDA e : RMul(e[2], RPow(e[1], k)))
          /\ ne => /\ Mu(m) = mean
                   /\ Var(m) = central(2)
                   /\ Third(m) = central(3)
                   /\ Fourth(m) = central(4)
                   /\ Cov(m) = Avg(LAMBDA e : RMul(RSub(e[1], mean), RSub(e[3], meanC)))
                   /\ m.mn = CHOOSE v \in {hist[j][1] : j \in 1..Len(hist)} : \A j \in 1..Len(hist) : RLe(v, hist[j][1])
                   /\ m.mx = CHOOSE v \in {hist[j][1] : j \in 1..Len(hist)} : \A j \in 1..Len(hist) : RLe(hist[j][1], v)
Incremental == ne => /\ imm.mean = Mu(m) /\ imm.var = Var(m)
                     /\ imm.cmean = RDiv(m.WC, m.W) /\ imm.cov = Cov(m)
Laws == ne => /\ RLe(m.mn, Mu(m)) /\ RLe(Mu(m), m.mx)
              /\ RSgn(Var(m)) >= 0
              /\ (RSgn(Var(m)) = 0) = (Cardinality({hist[j][1] : j \in {q \in 1..Len(hist) : hist[q][2] # "0"}}) = 1)
              /\ RLe(RMul(Cov(m), Cov(m)), RMul(Var(m), RSub(Avg(LAMBDA e : RPow(e[3], 2)), RPow(meanC, 2))))
              \* pushing an equal sample k times is pushing it with k times the weight
              /\ \A k \in {"2", "3"} : LET a == SumStep(m, "2", "1", "3", k)
                                           b == SumStep(m, "2", k, "3", "1")
                                       IN a.S = b.S /\ a.W = b.W /\ Var(a) = Var(b) /\ Cov(a) = Cov(b)
\* the specification accepts the exact results and nothing far away
Accepts == ne => /\ \A f \in {"mean", "moment2", "variance", "covariance"} :
                      LET v == CASE f = "mean" -> Mu(m) [] f = "moment2" -> Mom(m, 2) [] f = "variance" -> Var(m) [] OTHER -> Cov(m)
                      IN SumAgree(m, "double", f, v) /\ ~SumAgree(m, "double", f, RAdd(v, "1/1000"))
                 /\ \A f \in {"min", "max", "sum", "mean", "variance"} : ~SumAgree(m, "double", f, "nan") /\ ~SumAgree(m, "double", f, "throw")
=============================================================================
