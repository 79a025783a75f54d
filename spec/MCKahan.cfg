SPECIFICATION Spec
INVARIANT Bound
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxLen = 6
 B = 8
 Xs = {"128", "1", "3/4", "-5/8", "129/256"}
