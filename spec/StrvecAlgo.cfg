SPECIFICATION Spec
CONSTANTS NSlots = 3 Strs = {"a", "b"} MaxLen = 3 MaxElts = 4 MaxAttr = 2 Hist = FALSE Depth = 99
INVARIANTS Refines NoUseAfterFree Counted AttrOwned
CHECK_DEADLOCK FALSE
