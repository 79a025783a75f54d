-------------------------------- MODULE MCPot --------------------------------
(* Laws of the peaks-over-threshold fit on every short stream: the left    *)
(* tail is the mirror image of the right one, the fit moves with the       *)
(* origin and scales with the unit, weight k is k equal samples, and only  *)
(* the samples beyond the threshold matter.                                *)
EXTENDS Tails
CONSTANTS MaxLen, Xs, Ws
VARIABLES m
Init == m = TailInit([N |-> "9", side |-> "right"])
Next == Len(m.ent) < MaxLen /\ \E x \in Xs, w \in Ws : m' = TailStep(m, x, w, <<>>)
Spec == Init /\ [][Next]_m
Fold(s, side, F(_)) == FoldLeft(LAMBDA a, e : TailStep(a, F(e)[1], F(e)[2], <<>>), TailInit([N |-> "9", side |-> side]), s)
Thr == "1"
FitAt(q, thr) == LET s == Beyond(q, thr) IN Fit3(q, s, RMul(Sgn(q), thr), RDiv(SumOf(s, Len(s), Wt), q.W))
Bey == Beyond(m, Thr)
Good == Len(Bey) >= 2 /\ Spread(Bey) /\ FitOk("double", Bey, RDiv(SumOf(Bey, Len(Bey), Wt), m.W), FitAt(m, Thr))
F == FitAt(m, Thr)
Near(a, b) == RNear(a, b, "1/1000000", RAdd("1", RAbs(b)))
Mirror == Good => LET G == FitAt(Fold(m.ent, "left", LAMBDA e : <<RNeg(e[1]), e[2]>>), RNeg(Thr))
                  IN Near(G.u, F.u) /\ Near(G.b, F.b) /\ Near(G.xi, F.xi)
Shift == Good => LET G == FitAt(Fold(m.ent, "right", LAMBDA e : <<RAdd(e[1], "10"), e[2]>>), RAdd(Thr, "10"))
                 IN Near(G.u, RAdd(F.u, "10")) /\ Near(G.b, F.b) /\ Near(G.xi, F.xi)
Scale == Good => LET G == FitAt(Fold(m.ent, "right", LAMBDA e : <<RMul(e[1], "2"), e[2]>>), RMul(Thr, "2"))
                 IN Near(G.u, RMul(F.u, "2")) /\ Near(G.b, RMul(F.b, "2")) /\ Near(G.xi, F.xi)
Weights == Good => LET two == FoldLeft(LAMBDA a, e : IF e[2] = "2" THEN TailStep(TailStep(a, e[1], "1", <<>>), e[1], "1", <<>>) ELSE TailStep(a, e[1], e[2], <<>>),
                                       TailInit([N |-> "9", side |-> "right"]), m.ent)
                       G == FitAt(two, Thr)
                   IN Near(G.u, F.u) /\ Near(G.b, F.b) /\ Near(G.xi, F.xi)
\* samples below the threshold only count through their weight
Below == Good => LET G == FitAt(Fold(m.ent, "right", LAMBDA e : IF RLe(e[1], Thr) THEN <<RSub(e[1], "50"), e[2]>> ELSE e), Thr)
                 IN Near(G.u, F.u) /\ Near(G.b, F.b) /\ Near(G.xi, F.xi)
\* the quantile of the fit at the threshold probability is the threshold
AtThr == Good => LET al == F.share
                 IN RNear(RAdd(F.u, RMul(RDiv(F.b, F.xi), RSub(RPowR(al, RNeg(F.xi)), "1"))), Thr, "1/10000", RAdd("1", RAbs(F.u)))
Accepts == Good => /\ PotAgree("double", F, m, "pot_fit", [p |-> "1/2"], <<F.u, F.b, F.xi>>)
                   /\ ~PotAgree("double", F, m, "pot_fit", [p |-> "1/2"], <<F.u, RMul(F.b, "11/10"), F.xi>>)
                   /\ ~PotAgree("double", F, m, "pot_fit", [p |-> "1/2"], <<F.u, F.b, RAdd(F.xi, "1/10")>>)
=============================================================================
