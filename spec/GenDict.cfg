SPECIFICATION Spec
CONSTANTS NSlots = 2 Keys = {"k1", "k2"} Hashes = {0} Factor = 2 MaxElts = 4 Hist = TRUE Depth = 6
INVARIANTS Refines BucketsOk Owned Emit
CHECK_DEADLOCK FALSE
