SPECIFICATION Spec
CONSTANTS Depth = 5 R = 2
INVARIANT Emit
PROPERTY Isolated
CHECK_DEADLOCK FALSE
