SPECIFICATION Spec
CONSTANTS Leaves = {"a", "ab"} Tops = {"seq"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
