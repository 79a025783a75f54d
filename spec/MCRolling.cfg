SPECIFICATION Spec
INVARIANTS Window Refines Bursts
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxLen = 5
 Xs = {"-1", "0", "5/2"}
 MaxN = 4
