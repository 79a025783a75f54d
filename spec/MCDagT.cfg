SPECIFICATION Spec
INVARIANTS Exact NonNeg Closed Ordered
CHECK_DEADLOCK FALSE
CONSTANTS
 NF = 4
 MaxReq = 3
