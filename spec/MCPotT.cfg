SPECIFICATION Spec
INVARIANTS Mirror Shift Scale Weights Below AtThr Accepts
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxLen = 5
 Xs = {"-1", "1", "2", "3", "7"}
 Ws = {"1", "2"}
