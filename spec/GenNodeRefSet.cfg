SPECIFICATION Spec
CONSTANTS N = 3 MaxEdges = 3 Replace = TRUE
INVARIANTS Emit NothingLeft
CHECK_DEADLOCK FALSE
