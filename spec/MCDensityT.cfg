SPECIFICATION Spec
INVARIANTS Recount Span Accepts Median
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxLen = 6
 Xs = {"0", "1", "2", "4"}
 Ws = {"1", "2"}
 Cs = {2, 3}
 Bs = {1, 3}
