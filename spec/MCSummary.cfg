SPECIFICATION Spec
INVARIANTS Closed Incremental Laws Accepts
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxLen = 3
 Xs = {"-1", "0", "5/2"}
 Ws = {"1", "3"}
 Cs = {"0", "-2"}
