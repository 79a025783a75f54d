------------------------------ MODULE Numeric ------------------------------
(* The numeric function objects: for scalars C++ arithmetic, with fdiv a   *)
(* division that never truncates; for vectors and arrays component by      *)
(* component, a scalar operand meeting every component; complex numbers    *)
(* as pairs.                                                               *)
EXTENDS Rat, Sequences

Elem(t) == CASE t \in {"vd", "ad", "cd"} -> "double" [] t \in {"vi", "ai", "ab"} -> "int" [] t \in {"vf", "af", "cf"} -> "float"
             [] t \in {"vl", "al"} -> "ll" [] OTHER -> t
IsVec(t) == t \in {"vd", "vi", "ad", "ai", "vf", "af", "vl", "al", "ab"}
IsCplx(t) == t \in {"cd", "cf"}
Integral(t) == t \in {"int", "short", "ll", "unsigned", "ull", "ush"}
Rank(t) == CASE t \in {"short", "ush"} -> 1 [] t = "int" -> 2 [] t = "unsigned" -> 3 [] t = "ll" -> 4 [] t = "ull" -> 5
             [] t = "float" -> 6 [] t = "double" -> 7 [] t = "ldb" -> 8
\* usual arithmetic conversions
Common(a, b) == LET q == IF Rank(a) < Rank(b) THEN b ELSE a IN IF q \in {"short", "ush"} THEN "int" ELSE q
Unit(t) == CASE t = "float" -> RPow("1/2", 23) [] t = "ldb" -> RPow("1/2", 63) [] OTHER -> RPow("1/2", 52)
Two32 == RPow("2", 32)
\* the value of an unsigned type congruent to v
Modulus(t) == IF t = "ush" THEN "65536" ELSE IF t = "ull" THEN RPow("2", 64) ELSE Two32
WrapTo(t, v) == LET md == Modulus(t)
                    u == RSub(v, RMul(md, RTrunc(RDiv(v, md))))
                IN IF RSgn(u) < 0 THEN RAdd(u, md) ELSE u
Unsigned(t) == t \in {"unsigned", "ull", "ush"}
\* a value of type t computed from the exact v
Val(r, t, v) == IF Unsigned(t) THEN REq(r, WrapTo(t, v)) ELSE IF Integral(t) THEN REq(r, v)
                ELSE RFin(r) /\ RNear(r, v, Unit(t), RAbs(v))
Conv(t, v) == IF Integral(t) THEN RTrunc(v) ELSE v
Bit(p) == IF p THEN "1" ELSE "0"

Arith(fn, c, x, y) ==
  CASE fn \in {"plus", "plus_assign"} -> RAdd(x, y)
    [] fn \in {"minus", "minus_assign"} -> RSub(x, y)
    [] fn \in {"multiplies", "multiplies_assign", "outer_product"} -> RMul(x, y)
    [] fn \in {"divides", "divides_assign"} -> IF Integral(c) THEN RTrunc(RDiv(x, y)) ELSE RDiv(x, y)
    [] fn \in {"modulus", "modulus_assign"} -> RSub(x, RMul(y, RTrunc(RDiv(x, y))))

\* largest and smallest value of a type
Biggest(t) == CASE t = "int" -> "2147483647" [] t = "short" -> "32767" [] t = "ll" -> "9223372036854775807" [] t = "unsigned" -> "4294967295" [] t = "ull" -> "18446744073709551615" [] t = "ush" -> "65535"
                [] t = "float" -> R("0x1.fffffep+127") [] t = "double" -> R("0x1.fffffffffffffp+1023")
                [] t = "ldb" -> R("0xf.fffffffffffffffp+16380")
Smallest(t) == CASE t = "int" -> "-2147483648" [] t = "short" -> "-32768" [] t = "ll" -> "-9223372036854775808" [] t = "unsigned" -> "0" [] t \in {"ull", "ush"} -> "0"
                 [] OTHER -> RNeg(Biggest(t))

\* one component: types lt, rt; operands x, y; result r
Scalar(fn, lt, rt, x, y, r) ==
  LET c == Common(lt, rt)
  IN CASE fn \in {"plus", "minus", "multiplies", "divides", "modulus", "outer_product"} -> Val(r, c, Arith(fn, c, x, y))
       [] fn \in {"plus_assign", "minus_assign", "multiplies_assign", "divides_assign", "modulus_assign"} ->
            \* the result is rounded to the common type, then converted to the type on the left
            IF Integral(lt) /\ ~Integral(rt) THEN REq(r, RTrunc(Arith(fn, c, x, y)))
            ELSE Val(r, lt, Arith(fn, c, x, y))
       [] fn = "assign" -> Val(r, lt, Conv(lt, y))
       [] fn \in {"fdiv"} -> IF Integral(lt) /\ Integral(rt) THEN RFin(r) /\ RNear(r, RDiv(x, y), RMul("4", Unit("double")), RAbs(RDiv(x, y))) ELSE Val(r, c, RDiv(x, y))
       [] fn = "less" -> r = Bit(RLt(x, y)) [] fn = "less_equal" -> r = Bit(RLe(x, y))
       [] fn = "greater" -> r = Bit(RLt(y, x)) [] fn = "greater_equal" -> r = Bit(RLe(y, x))
       [] fn = "equal_to" -> r = Bit(REq(x, y)) [] fn = "not_equal_to" -> r = Bit(~REq(x, y))
       [] fn = "min_assign" -> Val(r, lt, Conv(lt, RMin(x, y)))
       [] fn = "max_assign" -> Val(r, lt, Conv(lt, RMax(x, y)))
       [] fn \in {"promote", "unary_plus"} -> REq(r, x)
       [] fn = "unary_minus" -> REq(r, RNeg(x))
       [] fn = "complement" -> REq(r, RSub("-1", x))
       [] fn = "logical_not" -> r = Bit(RSgn(x) = 0)
       [] fn = "as_min" -> REq(r, Smallest(lt))
       [] fn = "as_max" -> REq(r, Biggest(lt))
       [] fn \in {"as_zero", "zero", "default_"} -> REq(r, "0")
       [] fn \in {"as_one", "one"} -> REq(r, "1")

\* complex numbers: the right operand is complex or real
Cplx(fn, lt, rt, x, y, r) ==
  LET yr == IF IsCplx(rt) THEN y[1] ELSE y
      yi == IF IsCplx(rt) THEN y[2] ELSE "0"
      n == RAdd(RMul(yr, yr), RMul(yi, yi))
      sx == RAdd(RAbs(x[1]), RAbs(x[2]))
      sxy == RAdd(sx, RAdd(RAbs(yr), RAbs(yi)))
      tol == IF lt = "cf" THEN "1/500000" ELSE "1/1000000000000"
      near(v, sc) == IsList(r) /\ Len(r) = 2 /\ RFin(r[1]) /\ RFin(r[2])
                     /\ RNear(r[1], v[1], tol, sc) /\ RNear(r[2], v[2], tol, sc)
      mul == <<RSub(RMul(x[1], yr), RMul(x[2], yi)), RAdd(RMul(x[1], yi), RMul(x[2], yr))>>
      div == <<RDiv(RAdd(RMul(x[1], yr), RMul(x[2], yi)), n), RDiv(RSub(RMul(x[2], yr), RMul(x[1], yi)), n)>>
  IN CASE fn \in {"plus", "plus_assign"} -> near(<<RAdd(x[1], yr), RAdd(x[2], yi)>>, sxy)
       [] fn = "minus" -> near(<<RSub(x[1], yr), RSub(x[2], yi)>>, sxy)
       [] fn = "multiplies" -> near(mul, RMul(sx, RAdd(RAbs(yr), RAbs(yi))))
       [] fn \in {"divides", "fdiv"} -> near(div, RMul("1", RDiv(RMul("4", sx), RAdd(RAbs(yr), RAbs(yi)))))
       [] fn = "equal_to" -> r = Bit(REq(x[1], yr) /\ REq(x[2], yi))
       [] fn \in {"as_zero", "zero", "default_"} -> IsList(r) /\ Len(r) = 2 /\ REq(r[1], "0") /\ REq(r[2], "0")
       [] fn \in {"as_one", "one"} -> IsList(r) /\ Len(r) = 2 /\ REq(r[1], "1") /\ REq(r[2], "0")

CallAgree(fn, lt, rt, x, y, r) ==
  IF IsCplx(lt) THEN Cplx(fn, lt, rt, x, y, r)
  ELSE IF fn = "promote_all" THEN r = Bit(\A j \in 1..Len(x) : RSgn(x[j]) # 0)          \* an array of truth values as one
  ELSE IF fn = "outer_product" /\ IsVec(lt) /\ IsVec(rt)
       THEN /\ IsList(r) /\ Len(r) = Len(x) * Len(y)
            /\ \A a \in 1..Len(x) : \A b \in 1..Len(y) : Scalar(fn, Elem(lt), Elem(rt), x[a], y[b], r[(a - 1) * Len(y) + b])
  ELSE IF ~IsVec(lt) /\ ~IsVec(rt) THEN ~IsList(r) /\ Scalar(fn, lt, rt, x, y, r)
  ELSE LET n == IF IsVec(lt) THEN Len(x) ELSE Len(y)
       IN /\ IsList(r) /\ Len(r) = n
          /\ \A j \in 1..n : Scalar(fn, Elem(lt), Elem(rt), IF IsVec(lt) THEN x[j] ELSE x, IF IsVec(rt) THEN y[j] ELSE y, r[j])
=============================================================================
