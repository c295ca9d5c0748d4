SPECIFICATION Spec
CONSTANTS Leaves = {"a", "ab"} Tops = {"or"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
