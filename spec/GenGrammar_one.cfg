SPECIFICATION Spec
CONSTANTS Leaves = {"a", "ab"} Tops = {"option", "bypass", "once", "many"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
