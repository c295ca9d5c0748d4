SPECIFICATION Spec
CONSTANTS Depth = 6
INVARIANTS WellFormed Symmetric Emit
CHECK_DEADLOCK FALSE
