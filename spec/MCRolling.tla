------------------------------ MODULE MCRolling ------------------------------
(* The ring buffer of N+1 samples with incremental sum, mean and sum of    *)
(* squares refines the definition over the last N samples, for every       *)
(* stream over small values and every window size.                         *)
EXTENDS Rolling
CONSTANTS MaxLen, Xs, MaxN
VARIABLES hist, m, ring, sum, mean, sq
vars == <<hist, m, ring, sum, mean, sq>>
Init == /\ hist = <<>> /\ ring = <<>> /\ sum = "0" /\ mean = "0" /\ sq = "0"
        /\ \E n \in 1..MaxN : m = RollInit([N |-> R(n)])
N == m.N
Full(r) == Len(r) = N + 1
Cnt(r) == IF Full(r) THEN N ELSE Len(r)
Next == /\ Len(hist) < MaxLen
        /\ \E x \in Xs :
           LET r == IF Full(ring) THEN Append(Tail(ring), x) ELSE Append(ring, x)      \* the window sees the sample first
               mu == IF Full(r) THEN RAdd(mean, RDiv(RSub(x, r[1]), R(Cnt(r))))
                     ELSE RAdd(mean, RDiv(RSub(x, mean), R(Cnt(r))))
               q1 == RAdd(sq, RMul(RSub(x, mu), RSub(x, mean)))
               q2 == IF Full(r) THEN RSub(q1, RMul(RSub(r[1], mu), RSub(r[1], mean))) ELSE q1
           IN /\ hist' = Append(hist, x)
              /\ ring' = r
              /\ m' = RollStep(m, x, "1")
              /\ sum' = RAdd(IF Full(r) THEN RSub(sum, r[1]) ELSE sum, x)
              /\ mean' = mu /\ sq' = q2
Spec == Init /\ [][Next]_vars
win == LastN(hist, N)
mu0 == RDiv(RSumSeq(win), R(Len(win)))
Window == m.win = win /\ m.win = (IF Full(ring) THEN Tail(ring) ELSE ring)
Refines == hist # <<>> =>
   /\ Cnt(ring) = Len(win) /\ sum = RSumSeq(win) /\ mean = mu0
   /\ sq = FoldLeft(LAMBDA a, x : RAdd(a, RPow(RSub(x, mu0), 2)), "0", win)
   /\ RollAgree(m, "double", "rolling_sum", sum) /\ RollAgree(m, "double", "rolling_mean", mean)
   /\ RollAgree(m, "double", "rolling_window", win)
   /\ Len(win) >= 2 => RollAgree(m, "double", "rolling_variance", RDiv(sq, R(Len(win) - 1)))
   /\ ~RollAgree(m, "double", "rolling_sum", RAdd(sum, "1/100")) /\ ~RollAgree(m, "double", "rolling_mean", "nan")
Bursts == \A k \in 1..4 : RollStep(m, "7", R(k)) = FoldLeft(LAMBDA a, j : RollStep(a, "7", "1"), m, [j \in 1..k |-> j])
=============================================================================
