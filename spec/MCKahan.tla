------------------------------- MODULE MCKahan -------------------------------
(* Compensated summation in a small floating point format of B bits: on    *)
(* every stream the error stays within the bound of Kahan.tla, however     *)
(* many samples; plain summation breaks it.                                *)
EXTENDS Rat, SequencesExt
CONSTANTS MaxLen, Xs, B
VARIABLES n, s, c, S, A
vars == <<n, s, c, S, A>>
fl(x) == RRound(x, B)
U == RPow("1/2", B)
Init == n = 0 /\ s = "0" /\ c = "0" /\ S = "0" /\ A = "0"
Push(x) == LET y == fl(RSub(x, c))
               t == fl(RAdd(s, y))
           IN /\ s' = t /\ c' = fl(RSub(fl(RSub(t, s)), y))
              /\ S' = RAdd(S, x) /\ A' = RAdd(A, RAbs(x)) /\ n' = n + 1
Next == n < MaxLen /\ \E x \in Xs : Push(x)
Spec == Init /\ [][Next]_vars
\* |error| <= (2u + O(n u^2)) * sum of magnitudes; the specification allows 6u
Bound == RLe(RAbs(RSub(s, S)), RMul(RMul("6", U), A))
=============================================================================
