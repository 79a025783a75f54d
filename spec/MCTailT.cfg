SPECIFICATION Spec
INVARIANTS Held Misplaced Laws WLaws
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxLen = 5
 Xs = {"-1", "2", "3"}
 Ws = {"1", "2"}
 MaxN = 4
