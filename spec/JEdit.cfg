SPECIFICATION Spec
INVARIANT Conforms
CHECK_DEADLOCK FALSE
CONSTANTS
  Begin <- EdBegin
  Step <- EdStep
  Accept <- EdAccept
  Expected <- EdExpected
