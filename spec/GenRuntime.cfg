SPECIFICATION Spec
CONSTANTS MaxEnts = 3 Prios = {10, 60, 99}
INVARIANTS InitOk ExitOk Emit
CHECK_DEADLOCK FALSE
