-------------------------------- MODULE Rat --------------------------------
(* Exact rational arithmetic.  A rational is a canonical string "n" or     *)
(* "n/d"; "nan", "inf", "-inf" are the special IEEE results.  Every        *)
(* operator is overridden by java/verif/RatOverrides.java (BigInteger);    *)
(* RatTest.tla cross-checks the overrides against TLC's own integers.      *)
EXTENDS Integers, Sequences

R(a)            == CHOOSE x : TRUE   \* canonical form of an Int, "n/d", decimal or C hex-float string
RAdd(a, b)      == CHOOSE x : TRUE
RSub(a, b)      == CHOOSE x : TRUE
RMul(a, b)      == CHOOSE x : TRUE
RDiv(a, b)      == CHOOSE x : TRUE   \* "nan" when b = 0
RNeg(a)         == CHOOSE x : TRUE
RAbs(a)         == CHOOSE x : TRUE
RPow(a, k)      == CHOOSE x : TRUE   \* k an Int
RLt(a, b)       == CHOOSE x : TRUE
RLe(a, b)       == CHOOSE x : TRUE
REq(a, b)       == CHOOSE x : TRUE
RSgn(a)         == CHOOSE x : TRUE   \* -1, 0, 1
RFloor(a)       == CHOOSE x : TRUE   \* an Int
RCeil(a)        == CHOOSE x : TRUE   \* an Int
RTrunc(a)       == CHOOSE x : TRUE   \* towards zero, a rational
RRound(a, k)    == CHOOSE x : TRUE   \* to k significant bits
RDbl(a)         == CHOOSE x : TRUE   \* nearest double
RFlt(a)         == CHOOSE x : TRUE   \* nearest single
RSqrt(a)        == CHOOSE x : TRUE   \* 40 digits
RPowR(a, b)     == CHOOSE x : TRUE   \* real exponent, double accuracy
RNear(a, b, tol, scale) == CHOOSE x : TRUE   \* |a-b| <= tol*scale; nan only near nan
RFin(a)         == CHOOSE x : TRUE   \* a finite number (not nan, inf, "throw", a sequence ...)
IsList(a)       == CHOOSE x : TRUE   \* a sequence, not a single value
RStr(a)         == CHOOSE x : TRUE   \* decimal rendering for messages
RPowSums(s, k)  == CHOOSE x : TRUE   \* <<n, S1, ..., Sk>> of a sequence of rationals
Hash(s, i, j, n) == CHOOSE x : TRUE  \* pseudo-random Int in 0..n-1

RMin(a, b) == IF RLe(a, b) THEN a ELSE b
RMax(a, b) == IF RLe(a, b) THEN b ELSE a
RECURSIVE RSumSeq(_)
RSumSeq(s) == IF s = <<>> THEN "0" ELSE RAdd(s[1], RSumSeq(Tail(s)))
=============================================================================
