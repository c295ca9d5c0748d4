SPECIFICATION Spec
CONSTANTS Depth = 6 MaxN = 4
INVARIANTS Forest IterAll SibAll Emit
CHECK_DEADLOCK FALSE
