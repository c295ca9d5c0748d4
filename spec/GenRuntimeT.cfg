SPECIFICATION Spec
CONSTANTS MaxEnts = 4 Prios = {10, 60, 99}
INVARIANTS InitOk ExitOk Emit
CHECK_DEADLOCK FALSE
