SPECIFICATION Spec
INVARIANTS Markers Unit Exactly5 Constant
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxLen = 9
 Xs = {"0", "1", "3"}
