SPECIFICATION Spec
CONSTANTS Depth = 5
INVARIANTS WellFormed Symmetric Emit
CHECK_DEADLOCK FALSE
