INIT GenInit
NEXT Next
VIEW gvars
CHECK_DEADLOCK FALSE
