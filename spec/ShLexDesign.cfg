SPECIFICATION Spec
CONSTANTS MaxLen = 5
INVARIANTS QuotingWorks StrictAgrees ClosingWorks TrailAgrees
PROPERTY Monotone
CHECK_DEADLOCK FALSE
