------------------------------ MODULE Density ------------------------------
(* Histogram density: bins fixed by the first C samples, then every sample *)
(* of the stream (cached ones included) counted once, with its weight.     *)
(* Bin 1 is the underflow bin, bin B+2 the overflow bin; bins are closed   *)
(* on the left.  lo and hi differ only where a sample is so close to an    *)
(* inexact bin border that rounding decides.                               *)
EXTENDS Rat, Tails

DensInit(p) == [C |-> RFloor(p.C), B |-> RFloor(p.B), n |-> 0, W |-> "0", cache |-> <<>>, pos |-> <<>>,
                ex |-> TRUE, lo |-> <<>>, hi |-> <<>>]

MinOf(s) == FoldLeft(LAMBDA a, e : RMin(a, e[1]), s[1][1], s)
MaxOfS(s) == FoldLeft(LAMBDA a, e : RMax(a, e[1]), s[1][1], s)

DEps(m) == RMul("1/1000000000", RAdd(RSub(m.pos[m.B + 2], m.pos[2]), RAbs(m.pos[m.B + 2])))

BinOf(m, x) == IF RLt(x, m.pos[2]) THEN 1
               ELSE IF RLe(m.pos[m.B + 2], x) THEN m.B + 2
               ELSE CHOOSE j \in 2..(m.B + 1) : RLe(m.pos[j], x) /\ RLt(x, m.pos[j + 1])
BinsOf(m, x) == IF m.ex THEN {BinOf(m, x)}
                ELSE LET e == DEps(m) IN BinOf(m, RSub(x, e)) .. BinOf(m, RAdd(x, e))

AddTo(m, x, w) ==
  LET b == BinsOf(m, x)
  IN [m EXCEPT !.lo = [j \in 1..(m.B + 2) |-> IF b = {j} THEN RAdd(@[j], w) ELSE @[j]],
               !.hi = [j \in 1..(m.B + 2) |-> IF j \in b THEN RAdd(@[j], w) ELSE @[j]]]

DensStep(m, x, w) ==
  LET m1 == [m EXCEPT !.n = @ + 1, !.W = RAdd(@, w)]
      c  == Append(m.cache, <<x, w>>)
  IN IF m1.n < m.C THEN [m1 EXCEPT !.cache = c]
     ELSE IF m1.n = m.C
          THEN LET a == MinOf(c)
                   b == MaxOfS(c)
                   bs == RDiv(RSub(b, a), R(m.B))
                   z == [m1 EXCEPT !.cache = <<>>,
                                   !.pos = [j \in 1..(m.B + 2) |-> RAdd(a, RMul(R(j - 2), bs))],
                                   !.ex = Exactly(bs) /\ Exactly(a),
                                   !.lo = [j \in 1..(m.B + 2) |-> "0"],
                                   !.hi = [j \in 1..(m.B + 2) |-> "0"]]
               IN FoldLeft(LAMBDA q, e : AddTo(q, e[1], e[2]), z, c)
          ELSE AddTo(m1, x, w)

\* n equal samples: one by one until the cache is full, the rest at once
RECURSIVE DensSteps(_, _, _, _)
DensSteps(m, x, w, n) ==
  IF n = "0" THEN m
  ELSE IF m.n < m.C \/ n = "1" THEN DensSteps(DensStep(m, x, w), x, w, RSub(n, "1"))
  ELSE AddTo([m EXCEPT !.n = @ + RFloor(n), !.W = RAdd(@, RMul(n, w))], x, RMul(n, w))

DensReady(m) == m.n >= m.C /\ RSgn(m.W) > 0

DensOk(m, t, r) ==
  DensReady(m) =>
    /\ IsList(r)
    /\ Len(r) = 2 * (m.B + 2)
    /\ \A j \in 1..Len(r) : RFin(r[j])
    /\ \A j \in 1..(m.B + 2) :
         /\ RNear(r[2 * j - 1], m.pos[j], TolOf(t), RAdd(RSub(m.pos[m.B + 2], m.pos[2]), RAbs(m.pos[m.B + 2])))
         /\ LET v == RMul(r[2 * j], m.W)
                e == RMul(TolOf(t), m.W)
            IN RLe(RSub(m.lo[j], e), v) /\ RLe(v, RAdd(m.hi[j], e))
    /\ RNear(FoldLeft(LAMBDA a, j : RAdd(a, r[2 * j]), "0", [j \in 1..(m.B + 2) |-> j]), "1", TolOf(t), "1")

-----------------------------------------------------------------------------
(* A point where a piecewise linear cumulative distribution reaches 1/2.   *)
(* Segment: from (x0, f0) to (x1, f1).                                     *)
Half(x0, f0, x1, f1, r, tol, scale) ==
  /\ RLe(f0, RAdd("1/2", tol)) /\ RLe(RSub("1/2", tol), f1)
  /\ IF RLt(RSub(f1, f0), RMul("10", tol))
     THEN RLe(RSub(x0, RMul(tol, scale)), r) /\ RLe(r, RAdd(x1, RMul(tol, scale)))
     ELSE RNear(r, RAdd(x0, RMul(RSub(x1, x0), RDiv(RSub("1/2", f0), RSub(f1, f0)))), tol,
                RDiv(RMul("10", scale), RSub(f1, f0)))

\* Median of the histogram (m.lo = m.hi: unambiguous): the position of the sample in the middle, which lies in the first
\* bin where the cumulated count reaches half of the total.  With inexact shares rounding decides which bin that is when
\* the total is met exactly; with exact shares there is no choice.
DensMedian(m, t, r) ==
  (DensReady(m) /\ m.lo = m.hi) =>
    LET tol == TolOf(t)
        sc == RAdd(RSub(m.pos[m.B + 2], m.pos[1]), RAbs(m.pos[m.B + 2]))
        cum(j) == RDiv(FoldLeft(LAMBDA a, q : RAdd(a, q), "0", SubSeq(m.lo, 1, j)), m.W)
        exact == \A j \in 1..(m.B + 2) : Exactly(RDiv(m.lo[j], m.W))
        first == CHOOSE j \in 1..(m.B + 2) : RLe("1/2", cum(j)) /\ RLt(cum(j - 1), "1/2")
    IN /\ RFin(r)
       /\ IF exact
          THEN IF first = m.B + 2 THEN RNear(r, m.pos[first], tol, sc)
               ELSE Half(m.pos[first], cum(first - 1), m.pos[first + 1], cum(first), r, tol, sc)
          ELSE \/ \E j \in 1..(m.B + 1) : Half(m.pos[j], cum(j - 1), m.pos[j + 1], cum(j), r, tol, sc)
               \/ RLe(cum(m.B + 1), RAdd("1/2", tol)) /\ RNear(r, m.pos[m.B + 2], tol, sc)
=============================================================================
