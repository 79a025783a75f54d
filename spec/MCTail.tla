------------------------------- MODULE MCTail -------------------------------
(* The bounded cache with replacement of the least extreme sample (tail)   *)
(* and slots shared with weights and variates refines the definition over  *)
(* the whole history, for every order of arrival, ties included; and the   *)
(* ranks and means of Tails obey their laws.                               *)
EXTENDS Tails
CONSTANTS MaxLen, Xs, Ws, MaxN
VARIABLES m, slots                       \* slots: what the cache holds, as entries; variates live at the slot of their sample
vars == <<m, slots>>
Init == slots = <<>> /\ \E n \in 1..MaxN, s \in {"left", "right"} : m = TailInit([N |-> R(n), side |-> s])
More(a, b) == IF m.side = "right" THEN RLt(b, a) ELSE RLt(a, b)          \* a more extreme than b
Least == {j \in 1..Len(slots) : \A k \in 1..Len(slots) : ~More(slots[j][1], slots[k][1])}
Next == /\ Len(m.ent) < MaxLen
        /\ \E x \in Xs, w \in Ws :
             LET e == <<x, w, <<RMul(x, w), R(Len(m.ent))>> >> IN
             /\ m' = TailStep(m, x, w, e[3])
             /\ IF Len(slots) < m.N THEN slots' = Append(slots, e)
                ELSE IF More(x, slots[CHOOSE j \in Least : TRUE][1]) THEN \E j \in Least : slots' = [slots EXCEPT ![j] = e]
                ELSE slots' = slots
Spec == Init /\ [][Next]_vars
\* every way of listing the cache in order of extremeness
Sorted(s) == \A j \in 1..(Len(s) - 1) : ~More(s[j + 1][1], s[j][1])
Perm == {p \in [1..Len(slots) -> 1..Len(slots)] : \A a, b \in 1..Len(slots) : a # b => p[a] # p[b]}
Listings == {s \in {[j \in 1..Len(slots) |-> slots[p[j]]] : p \in Perm} : Sorted(s)}
Flat(s) == FoldLeft(LAMBDA a, e : a \o <<e[1], e[2]>> \o e[3], <<>>, s)
a0 == [p |-> "0", v |-> "1"]
Held == \A s \in Listings : /\ [j \in 1..Len(s) |-> s[j][1]] = [j \in 1..Size(m) |-> Cached(m)[j][1]]
                            /\ TailAgree(m, "double", "tail", a0, [j \in 1..Len(s) |-> s[j][1]])
                            /\ TailAgree(m, "double", "tail_xwc", a0, Flat(s))
\* a weight or variate at the wrong position is not accepted
Misplaced == \A s \in Listings : \A i, j \in 1..Len(s) :
   (s[i][3] # s[j][3]) =>
      ~TailAgree(m, "double", "tail_xwc", a0, Flat([k \in 1..Len(s) |-> IF k = i THEN <<s[i][1], s[i][2], s[j][3]>> ELSE s[k]]))
Ps == {"1/8", "1/4", "1/2", "3/4", "7/8"}
n0 == Len(m.ent)
Laws == n0 > 0 => \A p \in Ps :
   LET k == CHOOSE k \in Ranks(m, p) : TRUE
       q == RMul(R(n0), Q(m, p))
   IN /\ Cardinality(Ranks(m, p)) = 1
      /\ RLe(q, R(k)) /\ RLt(R(k - 1), q)                              \* k is the smallest rank covering the share
      /\ k \in 1..n0
      \* unit weights: the weighted rank is the unweighted one
      /\ (\A j \in 1..n0 : m.ent[j][2] = "1") => \A kw \in WRanks(m, p) : kw = (IF k <= Size(m) THEN k ELSE Size(m) + 1)
      /\ k <= Size(m) =>
           LET o == Cached(m) IN
           /\ QuantK(m, "double", k, o[k][1])
           /\ \A j \in 1..k : ~More(o[k][1], o[j][1])
           \* the coherent mean is the average of the share q of extreme samples, the last one in part
           /\ LET part == RSub(q, R(k - 1))
                  coh == RDiv(RAdd(SumOf(o, k - 1, X), RMul(part, o[k][1])), q)
                  ctm == RAdd(Nctm(o, k), RMul(RDiv(o[k][1], R(k)), RSub(Q(m, p), RDiv(R(k), R(n0)))))
              IN (RSub(q, R(k)) = "0") => coh = ctm
           /\ LET me == Nctm(o, k) IN ~More(me, o[1][1]) /\ ~More(o[k][1], me)
           /\ ~QuantK(m, "double", k, "nan") /\ ~NctmK(m, "double", k, "nan")
      /\ k > Size(m) => QuantK(m, "double", k, "nan") /\ QuantK(m, "int", k, "throw") /\ ~QuantK(m, "double", k, "1")
WLaws == n0 > 0 => \A p \in Ps : \A k \in WRanks(m, p) :
   LET o == Cached(m)
       thr == RMul(m.W, Q(m, p))
   IN IF k <= Len(o) THEN /\ RLe(thr, SumOf(o, k, Wt)) /\ (k > 0 => RLt(SumOf(o, k - 1, Wt), thr))
      ELSE RLt(SumOf(o, Len(o), Wt), thr)
=============================================================================
