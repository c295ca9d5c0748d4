SPECIFICATION Spec
CONSTANTS Leaves = {"a", "ab"} Tops = {"subset"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
