SPECIFICATION Spec
CONSTANTS Depth = 4 R = 2
INVARIANT Emit
PROPERTY Isolated
CHECK_DEADLOCK FALSE
