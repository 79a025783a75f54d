------------------------------ MODULE RatTest ------------------------------
EXTENDS Rat, TLC
VARIABLE i
I == -12..12
ASSUME \A a, b \in I : RAdd(R(a), R(b)) = R(a + b) /\ RMul(a, R(b)) = R(a * b) /\ RSub(R(a), b) = R(a - b)
ASSUME \A a, b \in I : RLt(R(a), R(b)) = (a < b) /\ RLe(a, b) = (a <= b) /\ REq(a, b) = (a = b)
ASSUME \A a \in I, b \in 1..12 : RMul(RDiv(R(a), R(b)), R(b)) = R(a) /\ RFloor(RDiv(a, b)) = a \div b /\ RCeil(RDiv(a, b)) = -((-a) \div b)
ASSUME \A a \in I : RDiv(R(a), "0") = "nan"
ASSUME \A a \in 1..12, k \in 0..4 : RPow(R(a), k) = R(a ^ k)
ASSUME R("0x1.8p+1") = "3" /\ R("-0x1p-1") = "-1/2" /\ R("0.25") = "1/4" /\ R("-nan") = "nan" /\ R("inf") = "inf" /\ R("0x0p+0") = "0"
ASSUME \A a, b \in 1..12 : RAdd(RDiv(a, b), RDiv(b, a)) = RDiv(a * a + b * b, a * b)
ASSUME ~RLt("nan", "1") /\ ~RLe("1", "nan") /\ ~REq("nan", "nan") /\ RLt("1", "inf") /\ RLt("-inf", "1")
ASSUME RNear("1", "1000001/1000000", "1/100000", "1") /\ ~RNear("1", "1001/1000", "1/100000", "1") /\ RNear("nan", "nan", "1", "1") /\ ~RNear("nan", "0", "1", "1")
ASSUME RNear(RMul(RSqrt("2"), RSqrt("2")), "2", "1e-35", "1") /\ RSqrt("9/4") = "3/2" /\ RSqrt("-1") = "nan"
ASSUME RPowSums(<<"1", "2", "1/2">>, 2) = <<"3", "7/2", "21/4">>
ASSUME RRound("1/3", 200) # "1/3" /\ RNear(RRound("1/3", 200), "1/3", "1e-55", "1") /\ RRound("5", 10) = "5" /\ RRound("-1/1024", 4) = "-1/1024"
ASSUME RDbl("1/10") = R("0x1.999999999999ap-4") /\ RFlt("1/10") = R("0x1.99999ap-4")
ASSUME RTrunc("-7/2") = "-3" /\ RTrunc("7/2") = "3"
ASSUME \A k \in 0..50 : Hash(1, 2, k, 7) \in 0..6
ASSUME Hash(1,2,3,1000000) # Hash(1,2,4,1000000) /\ Hash(1,2,3,1000000) = Hash(1,2,3,1000000)
Init == i = 0
Next == UNCHANGED i
=============================================================================
