SPECIFICATION Spec
CONSTANTS N = 3  MaxEdges = 3  MaxHold = 1
INVARIANTS NoError Implements Exact
CHECK_DEADLOCK FALSE
