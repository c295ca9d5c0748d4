SPECIFICATION Spec
CONSTANTS N = 3  MaxEdges = 4  MaxHold = 2
INVARIANTS NoError Implements Exact
CHECK_DEADLOCK FALSE
