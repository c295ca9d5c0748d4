SPECIFICATION Spec
CONSTANTS N = 3 MaxEdges = 4 Replace = FALSE
INVARIANTS Emit NothingLeft
CHECK_DEADLOCK FALSE
