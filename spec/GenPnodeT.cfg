SPECIFICATION Spec
CONSTANTS Depth = 7 MaxN = 5
INVARIANTS Forest IterAll SibAll Emit
CHECK_DEADLOCK FALSE
