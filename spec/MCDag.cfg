SPECIFICATION Spec
INVARIANTS Exact NonNeg Closed Ordered
CHECK_DEADLOCK FALSE
CONSTANTS
 NF = 3
 MaxReq = 3
