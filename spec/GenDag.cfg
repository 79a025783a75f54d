INIT DagGenInit
NEXT DagNext
VIEW gvars
CHECK_DEADLOCK FALSE
