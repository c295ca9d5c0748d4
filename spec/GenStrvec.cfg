SPECIFICATION Spec
CONSTANTS NSlots = 3 Strs = {"a"} MaxLen = 2 MaxElts = 4 MaxAttr = 2 Hist = TRUE Depth = 6
INVARIANTS Refines NoUseAfterFree Counted AttrOwned Emit
CHECK_DEADLOCK FALSE
