SPECIFICATION Spec
CONSTANTS Depth = 7 MaxFrames = 3
INVARIANTS Groups Counts Current Emit
CHECK_DEADLOCK FALSE
