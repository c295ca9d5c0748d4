SPECIFICATION Spec
CONSTANTS NSlots = 2 Keys = {"k1", "k2", "k3"} Hashes = {0, 1, 2} Factor = 2 MaxElts = 4 Hist = FALSE Depth = 99
INVARIANTS Refines BucketsOk Owned
CHECK_DEADLOCK FALSE
