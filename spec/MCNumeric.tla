------------------------------ MODULE MCNumeric ------------------------------
(* The specification of the numeric function objects accepts the C++       *)
(* result, and only it, on all small operands.                             *)
EXTENDS Numeric, FiniteSets, TLC
VARIABLES x, y
I == -7..7
Init == x \in I /\ y \in I
Next == UNCHANGED <<x, y>>
Spec == Init /\ [][Next]_<<x, y>>
Acc(fn, lt, rt, v) == CallAgree(fn, lt, rt, R(x), R(y), R(v))
Only(fn, lt, rt, v) == Acc(fn, lt, rt, v) /\ \A d \in {"-1", "1", "1/2", "1/1000"} : ~CallAgree(fn, lt, rt, R(x), R(y), RAdd(v, d))
TDiv(a, b) == LET q == (IF a < 0 THEN -a ELSE a) \div (IF b < 0 THEN -b ELSE b) IN IF (a < 0) = (b < 0) THEN q ELSE -q
Ints == /\ Only("plus", "int", "int", x + y) /\ Only("minus", "short", "int", x - y) /\ Only("multiplies", "ll", "int", x * y)
        /\ y # 0 => /\ Only("divides", "int", "int", TDiv(x, y))
                    /\ Only("modulus", "int", "int", x - y * TDiv(x, y))
                    /\ Only("fdiv", "int", "int", RDiv(x, y)) /\ Only("fdiv", "short", "short", RDiv(x, y))
                    /\ Only("divides", "int", "double", RDiv(x, y))
                    /\ (y # 0 /\ y * TDiv(x, y) # x) => ~Acc("fdiv", "int", "int", TDiv(x, y))
Order == /\ Acc("less", "int", "int", IF x < y THEN 1 ELSE 0) /\ ~Acc("less", "int", "int", IF x < y THEN 0 ELSE 1)
         /\ Acc("greater_equal", "double", "int", IF x >= y THEN 1 ELSE 0) /\ ~Acc("equal_to", "int", "int", IF x = y THEN 0 ELSE 1)
         /\ Only("min_assign", "int", "int", IF x < y THEN x ELSE y) /\ Only("max_assign", "double", "int", IF x < y THEN y ELSE x)
Vecs == LET vx == <<R(x), R(y), "2">>
            vy == <<R(y), "3", R(x)>>
        IN /\ CallAgree("plus", "vi", "vi", vx, vy, <<R(x + y), R(y + 3), R(2 + x)>>)
           /\ ~CallAgree("plus", "vi", "vi", vx, vy, <<R(x + y), R(y + 4), R(2 + x)>>)
           /\ ~CallAgree("plus", "vi", "vi", vx, vy, <<R(x + y), R(y + 3)>>)
           /\ CallAgree("fdiv", "vi", "int", vx, "4", <<RDiv(x, 4), RDiv(y, 4), "1/2">>)
           /\ CallAgree("multiplies", "cd", "cd", <<R(x), R(y)>>, <<R(y), R(x)>>, <<"0", R(x * x + y * y)>>)
           /\ CallAgree("outer_product", "vi", "vi", <<R(x), "1">>, <<R(y), "2">>, <<R(x * y), R(2 * x), R(y), "2">>)
Wraps == Acc("minus", "unsigned", "unsigned", IF x >= y THEN R(x - y) ELSE RAdd(Two32, R(x - y)))
=============================================================================
