------------------------------- MODULE Tails -------------------------------
(* Order statistics: tails of a stream with weights and variates, and      *)
(* everything computed from them.  The state is the whole history in       *)
(* ascending order of the samples; an entry is <<x, w, c>>, c a sequence.  *)
EXTENDS Rat, Summary, SequencesExt, FiniteSets

\* p: side "left"/"right", N the cache size, and for the peaks-over-threshold kinds thr or tp
TailInit(p) == [ent |-> <<>>, W |-> "0", N |-> RFloor(p.N), side |-> p.side]

Insert(s, e) ==
  LET k == Cardinality({j \in 1..Len(s) : RLe(s[j][1], e[1])})    \* ascending: goes after its equals
  IN SubSeq(s, 1, k) \o <<e>> \o SubSeq(s, k + 1, Len(s))

TailStep(m, x, w, c) == [m EXCEPT !.ent = Insert(@, <<x, w, c>>), !.W = RAdd(@, w)]
\* n equal samples
InsertN(s, e, n) ==
  LET k == Cardinality({j \in 1..Len(s) : RLe(s[j][1], e[1])})
  IN SubSeq(s, 1, k) \o [j \in 1..n |-> e] \o SubSeq(s, k + 1, Len(s))
TailSteps(m, x, w, c, n) == IF n = "1" THEN TailStep(m, x, w, c)
                            ELSE [m EXCEPT !.ent = InsertN(@, <<x, w, c>>, RFloor(n)), !.W = RAdd(@, RMul(n, w))]

\* the extreme samples first: descending on the right, ascending on the left
Ord(m) == IF m.side = "right" THEN Reverse(m.ent) ELSE m.ent
Cached(m) == LET o == Ord(m) IN IF Len(o) <= m.N THEN o ELSE SubSeq(o, 1, m.N)
Size(m) == Len(Cached(m))

\* equal samples that differ in weight or variate: which of them is listed where is not determined
Ambiguous(m) == \E j \in 1..(Len(m.ent) - 1) : m.ent[j][1] = m.ent[j + 1][1] /\ m.ent[j] # m.ent[j + 1]

Q(m, p) == IF m.side = "left" THEN p ELSE RSub("1", p)

\* v was computed in floating point: near an integer either side is possible, unless v is exact
Exactly(v) == REq(RDbl(v), v) /\ REq(RMul(v, "1024"), RTrunc(RMul(v, "1024")))
Ranks(m, p) ==
  LET q == Q(m, p)
      v == RMul(R(Len(m.ent)), q)
      eps == RMul(R(Len(m.ent) + 1), "1/1000000000000")
  IN IF Exactly(p) /\ Exactly(v) THEN {RCeil(v)} ELSE {RCeil(RSub(v, eps)), RCeil(RAdd(v, eps))}

RECURSIVE CumRank(_, _, _, _)
CumRank(o, k, s, thr) == IF ~RLt(s, thr) THEN k
                         ELSE IF k = Len(o) THEN k + 1                 \* never reached
                         ELSE CumRank(o, k + 1, RAdd(s, o[k + 1][2]), thr)
\* number of extreme samples whose weights reach the share q of the total; Size+1 if the cache falls short
WRanks(m, p) ==
  LET o == Cached(m)
      thr == RMul(m.W, Q(m, p))
      eps == RMul(RAdd(m.W, "1"), "1/1000000000000")
  IN IF Exactly(p) /\ Exactly(thr) THEN {CumRank(o, 0, "0", thr)}
     ELSE {CumRank(o, 0, "0", RSub(thr, eps)), CumRank(o, 0, "0", RAdd(thr, eps))}

SumOf(o, k, F(_)) == FoldLeft(LAMBDA a, e : RAdd(a, F(e)), "0", SubSeq(o, 1, k))
X(e) == e[1]
AX(e) == RAbs(e[1])
Wt(e) == e[2]
WX(e) == RMul(e[2], e[1])
WAX(e) == RMul(e[2], RAbs(e[1]))

Nil(r, t, isSample) == IF isSample /\ t \in {"int", "short", "longlong", "unsigned"} THEN r = "throw" ELSE r = "nan"

Nctm(o, k) == RDiv(SumOf(o, k, X), R(k))
WNctm(o, k) == RDiv(SumOf(o, k, WX), SumOf(o, k, Wt))

\* the results with rank k
QuantK(m, t, k, r) ==
  LET o == Cached(m) IN
  IF k = 0 THEN Nil(r, t, TRUE) \/ (Len(o) > 0 /\ RFin(r) /\ REq(r, o[1][1]))
  ELSE IF k <= Len(o) THEN RFin(r) /\ r # "throw" /\ REq(r, o[k][1])
  ELSE Nil(r, t, TRUE)
NctmK(m, t, k, r) ==
  LET o == Cached(m) IN
  IF k = 0 \/ k > Len(o) THEN Nil(r, t, FALSE)
  ELSE RFin(r) /\ RNear(r, Nctm(o, k), TolOf(t), RDiv(SumOf(o, k, AX), R(k)))
CtmK(m, t, k, p, r) ==
  LET o == Cached(m) IN
  IF k = 0 \/ k > Len(o) THEN r \in {"nan", "throw"}
  ELSE LET corr == RMul(RDiv(o[k][1], R(k)), RSub(Q(m, p), RDiv(R(k), R(Len(m.ent)))))
       IN RFin(r) /\ RNear(r, RAdd(Nctm(o, k), corr), TolOf(t), RDiv(SumOf(o, k, AX), R(k)))
WNctmK(m, t, k, r) ==
  LET o == Cached(m) IN
  IF k = 0 THEN r = "nan" \/ (Len(o) > 0 /\ RFin(r) /\ REq(r, o[1][1]))
  ELSE IF k > Len(o) THEN r = "nan"
  ELSE RSgn(SumOf(o, k, Wt)) > 0 =>
       RFin(r) /\ RNear(r, WNctm(o, k), TolOf(t), RDiv(SumOf(o, k, WAX), SumOf(o, k, Wt)))

\* variate means: j-th variate, weighted or not, relative or not
AllNan(r) == \A j \in 1..Len(r) : r[j] = "nan"
TvmK(m, t, k, weighted, relative, r) ==
  LET o == Cached(m)
      dim == IF Len(o) = 0 THEN 0 ELSE Len(o[1][3])
      den == IF weighted THEN SumOf(o, k, Wt) ELSE R(k)
      num(j) == IF weighted THEN SumOf(o, k, LAMBDA e : RMul(e[2], e[3][j])) ELSE SumOf(o, k, LAMBDA e : e[3][j])
      mag(j) == IF weighted THEN SumOf(o, k, LAMBDA e : RMul(e[2], RAbs(e[3][j]))) ELSE SumOf(o, k, LAMBDA e : RAbs(e[3][j]))
      base == IF weighted THEN WNctm(o, k) ELSE Nctm(o, k)
      bmag == IF weighted THEN RDiv(SumOf(o, k, WAX), SumOf(o, k, Wt)) ELSE RDiv(SumOf(o, k, AX), R(k))
      cond == RLt(RMul("1/1000", bmag), RAbs(base))          \* a relative mean needs a base that is not cancelled
  IN IF ~IsList(r) THEN FALSE
     ELSE IF Len(o) = 0 THEN Len(r) = 0
     ELSE /\ Len(r) = dim
          /\ IF k = 0 THEN AllNan(r)                                  \* the mean of nothing
             ELSE IF k > Len(o) THEN AllNan(r)
             ELSE (RSgn(den) > 0 /\ (relative => cond)) =>
                  \A j \in 1..dim :
                    LET d == IF relative THEN RMul(den, base) ELSE den
                    IN RFin(r[j]) /\ RNear(r[j], RDiv(num(j), d), TolOf(t), RDiv(mag(j), RAbs(d)))

\* count how often entry v (restricted to the listed fields) occurs
Occ(s, v, F(_)) == Cardinality({j \in 1..Len(s) : F(s[j]) = v})
ChunkOf(r, k, j) == [q \in 1..k |-> R(r[(j - 1) * k + q])]
\* a joint listing of samples with what was pushed together with them
Listing(m, k, F(_), r) ==
  LET c == Cached(m)
      n == Len(c)
      tup == [j \in 1..n |-> ChunkOf(r, k, j)]
  IN /\ IsList(r)
     /\ Len(r) = n * k
     /\ \A j \in 1..n : tup[j][1] = c[j][1]
     /\ \A j \in 1..n : Occ(tup, tup[j], LAMBDA e : e) <= Occ(m.ent, tup[j], F)

-----------------------------------------------------------------------------
(* Peaks over threshold: moment estimators of the generalized Pareto       *)
(* distribution over the samples beyond the threshold (mirrored on the     *)
(* left).                                                                  *)
Sgn(m) == IF m.side = "left" THEN "-1" ELSE "1"
Beyond(m, thr) == IF m.side = "left" THEN SelectSeq(m.ent, LAMBDA e : RLt(e[1], thr))
                  ELSE SelectSeq(m.ent, LAMBDA e : RLt(thr, e[1]))

\* fit over the entries s with mirrored threshold u and share beta = 1 - threshold probability
Fit3(m, s, u, share) ==
  LET w  == SumOf(s, Len(s), Wt)
      mu == RMul(Sgn(m), RDiv(SumOf(s, Len(s), WX), w))
      m2 == RDiv(SumOf(s, Len(s), LAMBDA e : RMul(e[2], RPow(e[1], 2))), w)
      v  == RSub(m2, RPow(mu, 2))
      d  == RSub(mu, u)
      tmp == RDiv(RMul(d, d), v)
      xi == RMul("1/2", RSub("1", tmp))
      beta == RMul("1/2", RMul(d, RAdd("1", tmp)))
      bbar == RMul(beta, RPowR(share, xi))
      ubar == RSub(u, RDiv(RMul(bbar, RSub(RPowR(share, RNeg(xi)), "1")), xi))
  IN [u |-> ubar, b |-> bbar, xi |-> xi, m2 |-> m2, v |-> v, d |-> d, tmp |-> tmp, share |-> share]

\* the fit is numerically meaningful: spread, excess and shape away from the singular points
FitOk(t, s, share, F) ==
  /\ Len(s) >= 2
  /\ RSgn(share) > 0
  /\ RLt(F.m2, RMul(IF t = "float" THEN "100" ELSE "100000", F.v))
  /\ RLt(RMul("1/1000", F.m2), RMul("1000", RMul(F.d, F.d)))
  /\ RLt("1/50", RAbs(F.xi)) /\ RLt("1/50", RAbs(RSub(F.xi, "1")))
  /\ RLt(RAbs(F.xi), IF t = "float" THEN "3" ELSE "12")

Spread(s) == \E j \in 1..Len(s) : s[j][1] # s[1][1]
PotTol(t) == IF t = "float" THEN "1/100" ELSE "1/10000"                              \* the powers amplify rounding in xi; a wrong sample shows far above
PotAgree(t, F, m, f, a, r) ==
  LET al == IF m.side = "left" THEN R(a.p) ELSE RSub("1", R(a.p))
      pw == RPowR(al, RNeg(F.xi))
      q  == RAdd(F.u, RMul(RDiv(F.b, F.xi), RSub(pw, "1")))
      sc == RAdd(RAdd(RAbs(F.u), RAbs(F.b)), RAbs(RMul(RDiv(F.b, F.xi), pw)))
      ctm == RSub(q, RMul(RDiv(F.b, RSub(F.xi, "1")), pw))
      sc2 == RAdd(sc, RAbs(RMul(RDiv(F.b, RSub(F.xi, "1")), pw)))
      sc0 == RAdd(RAbs(F.u), RAbs(RMul(RDiv(F.b, F.xi), RSub(RPowR(F.share, RNeg(F.xi)), "1"))))
  IN CASE f = "pot_fit" -> /\ IsList(r) /\ Len(r) = 3
                           /\ RFin(r[1]) /\ RFin(r[2]) /\ RFin(r[3])
                           /\ RNear(r[1], F.u, PotTol(t), sc0)
                           /\ RNear(r[2], F.b, PotTol(t), RAbs(F.b))
                           /\ RNear(r[3], F.xi, PotTol(t), RAdd("1", RAbs(F.xi)))
       [] f = "pot_quantile" -> RFin(r) /\ RNear(r, RMul(Sgn(m), q), PotTol(t), sc)
       [] f = "pot_tail_mean" -> RFin(r) /\ RNear(r, RMul(Sgn(m), ctm), PotTol(t), sc2)

PotValue(t, m, thr, f, a, r) ==
  LET s == Beyond(m, thr)
      u == RMul(Sgn(m), thr)
      w == SumOf(s, Len(s), Wt)
      share == RDiv(w, m.W)
      F == Fit3(m, s, u, share)
  IN (Len(s) >= 2 /\ RSgn(w) > 0 /\ Spread(s) /\ FitOk(t, s, share, F)) => PotAgree(t, F, m, f, a, r)

PotProbK(t, m, k, tp, f, a, r) ==
  LET o == Cached(m)
      s == SubSeq(o, 1, k)
      share == IF m.side = "left" THEN tp ELSE RSub("1", tp)
      F == Fit3(m, s, RMul(Sgn(m), o[k][1]), share)
  IN IF k = 0 THEN TRUE
     ELSE IF k > Len(o) THEN IF ~IsList(r) THEN r = "nan" ELSE AllNan(r)
     ELSE (Spread(s) /\ RSgn(SumOf(s, k, Wt)) > 0 /\ FitOk(t, s, share, F)) => PotAgree(t, F, m, f, a, r)

-----------------------------------------------------------------------------
(* Is r an acceptable result of feature f (with arguments a) of a tail?    *)
TailAgree(m, t, f, a, r) ==
  LET p == R(a.p)
      amb == Ambiguous(m)
      list == IsList(r)
      num == ~IsList(r)
      xw(e) == <<e[1], e[2]>>
      xc(e) == <<e[1]>> \o e[3]
      xwc(e) == <<e[1], e[2]>> \o e[3]
      dim == IF m.ent = <<>> THEN 0 ELSE Len(m.ent[1][3])
  IN CASE f = "count" -> REq(r, R(Len(m.ent)))
       [] f = "tail" -> LET c == Cached(m) IN list /\ Len(r) = Len(c) /\ \A j \in 1..Len(c) : REq(r[j], c[j][1])
       [] f = "tail_xw" -> Listing(m, 2, xw, r)
       [] f = "tail_xc" -> Listing(m, 1 + dim, xc, r)
       [] f = "tail_xwc" -> Listing(m, 2 + dim, xwc, r)
       [] f = "quantile" -> num /\ \E k \in Ranks(m, p) : QuantK(m, t, k, r)
       [] f = "nctm" -> num /\ \E k \in Ranks(m, p) : NctmK(m, t, k, r)
       [] f = "ctm" -> num /\ \E k \in Ranks(m, p) : CtmK(m, t, k, p, r)
       [] f = "tvm" -> amb \/ \E k \in Ranks(m, p) : TvmK(m, t, k, FALSE, FALSE, r)
       [] f = "rtvm" -> amb \/ \E k \in Ranks(m, p) : TvmK(m, t, k, FALSE, TRUE, r)
       [] f = "wquantile" -> num /\ (amb \/ \E k \in WRanks(m, p) : QuantK(m, t, k, r))
       [] f = "wnctm" -> num /\ (amb \/ \E k \in WRanks(m, p) : WNctmK(m, t, k, r))
       [] f = "wtvm" -> amb \/ \E k \in WRanks(m, p) : TvmK(m, t, k, TRUE, FALSE, r)
       [] f = "wrtvm" -> amb \/ \E k \in WRanks(m, p) : TvmK(m, t, k, TRUE, TRUE, r)

\* results that do not depend on which of several equal samples is listed where
TieFree == {"count", "tail", "quantile", "nctm", "ctm"}

\* threshold given as a value, or as a probability
PotVAgree(m, t, p, f, a, r) == IF f = "count" THEN REq(r, R(Len(m.ent))) ELSE PotValue(t, m, R(p.thr), f, a, r)
PotPAgree(m, t, p, weighted, f, a, r) ==
  IF f = "count" THEN REq(r, R(Len(m.ent)))
  ELSE \/ weighted /\ Ambiguous(m)
       \/ \E k \in (IF weighted THEN WRanks(m, R(p.tp)) ELSE Ranks(m, R(p.tp))) : PotProbK(t, m, k, R(p.tp), f, a, r)
=============================================================================
