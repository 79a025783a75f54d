------------------------------ MODULE MCDensity ------------------------------
(* Cached samples first, then counting one by one: the bins are those of   *)
(* the whole history, nothing is lost or counted twice; the median is      *)
(* where the distribution the histogram describes reaches one half.        *)
EXTENDS Density
CONSTANTS MaxLen, Xs, Ws, Cs, Bs
VARIABLES hist, m
vars == <<hist, m>>
Init == hist = <<>> /\ \E c \in Cs, b \in Bs : m = DensInit([C |-> R(c), B |-> R(b)])
Next == /\ Len(hist) < MaxLen
        /\ \E x \in Xs, w \in Ws : hist' = Append(hist, <<x, w>>) /\ m' = DensStep(m, x, w)
Spec == Init /\ [][Next]_vars
ready == m.n >= m.C
total(S) == FoldLeft(LAMBDA a, e : RAdd(a, e[2]), "0", SelectSeq(hist, LAMBDA e : e[1] \in S))
inBin(j, x) == CASE j = 1 -> RLt(x, m.pos[2]) [] j = m.B + 2 -> RLe(m.pos[m.B + 2], x) [] OTHER -> RLe(m.pos[j], x) /\ RLt(x, m.pos[j + 1])
Recount == ready => /\ \A j \in 1..(m.B + 2) : /\ RLe(m.lo[j], m.hi[j])
                                               /\ m.ex => (m.lo[j] = m.hi[j] /\ m.lo[j] = total({x \in Xs : inBin(j, x)}))
                    /\ RLe(FoldLeft(LAMBDA a, e : RAdd(a, e), "0", m.lo), m.W)
                    /\ RLe(m.W, FoldLeft(LAMBDA a, e : RAdd(a, e), "0", m.hi))
Span == ready => LET f == SubSeq(hist, 1, m.C) IN /\ m.pos[2] = MinOf(f) /\ RNear(m.pos[m.B + 2], MaxOfS(f), "1/1000000", "1")
                                                   /\ \A j \in 2..(m.B + 1) : RLe(m.pos[j], m.pos[j + 1])
Result == [j \in 1..(2 * (m.B + 2)) |-> IF j % 2 = 1 THEN m.pos[(j + 1) \div 2] ELSE RDiv(m.lo[j \div 2], m.W)]
Accepts == (ready /\ m.lo = m.hi) =>
   /\ DensOk(m, "double", Result)
   \* moving a sample to another bin, losing one, or counting one twice is not accepted
   /\ \A j, k \in 1..(m.B + 2) : (j # k /\ RSgn(m.lo[j]) > 0) =>
        ~DensOk(m, "double", [Result EXCEPT ![2 * j] = RSub(@, RDiv("1", m.W)), ![2 * k] = RAdd(@, RDiv("1", m.W))])
   /\ \A j \in 1..(m.B + 2) : ~DensOk(m, "double", [Result EXCEPT ![2 * j] = RAdd(@, RDiv("1", m.W))])
\* at least half of the weight lies at or below, and at least half above or at, the bin of the median
cum(j) == FoldLeft(LAMBDA a, q : RAdd(a, q), "0", SubSeq(m.lo, 1, j))
Median == (ready /\ m.lo = m.hi /\ (\A j \in 1..(m.B + 2) : Exactly(RDiv(m.lo[j], m.W))) /\ RLt(m.pos[2], m.pos[m.B + 2])) =>
   LET half == RDiv(m.W, "2")
       j == CHOOSE j \in 1..(m.B + 2) : RLe(half, cum(j)) /\ RLt(cum(j - 1), half)
       v == IF j = m.B + 2 THEN m.pos[j] ELSE RAdd(m.pos[j], RMul(RSub(m.pos[j + 1], m.pos[j]), RDiv(RSub(half, cum(j - 1)), m.lo[j])))
   IN DensMedian(m, "double", v) /\ ~DensMedian(m, "double", RAdd(v, "1/100"))
=============================================================================
