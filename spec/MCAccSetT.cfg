SPECIFICATION Spec
INVARIANT HistoryOnly
PROPERTY Others
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxOps = 5
 Fams = {"sum", "roll", "tail", "dens", "dlib"}
