SPECIFICATION Spec
CONSTANTS Depth = 6 MaxFrames = 3
INVARIANTS Groups Counts Current Emit
CHECK_DEADLOCK FALSE
