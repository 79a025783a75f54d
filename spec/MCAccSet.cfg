SPECIFICATION Spec
INVARIANT HistoryOnly
PROPERTY Others
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxOps = 4
 Fams = {"sum", "roll", "dlib"}
