SPECIFICATION Spec
INVARIANTS Markers Unit Exactly5 Constant
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxLen = 7
 Xs = {"0", "1", "3"}
