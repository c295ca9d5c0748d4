SPECIFICATION Spec
CONSTANTS MaxLen = 6
INVARIANTS QuotingWorks StrictAgrees ClosingWorks TrailAgrees
PROPERTY Monotone
CHECK_DEADLOCK FALSE
