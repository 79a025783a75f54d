SPECIFICATION Spec
INVARIANTS Same Apart
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxLen = 6
 Xs = {"-1", "2"}
 Ws = {"1", "3"}
