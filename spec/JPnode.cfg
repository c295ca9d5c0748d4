SPECIFICATION Spec
INVARIANT Conforms
CHECK_DEADLOCK FALSE
CONSTANTS
  Begin <- PBegin
  Step <- PStep
  Accept <- PAccept
  Expected <- PExpected
