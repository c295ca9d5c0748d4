SPECIFICATION Spec
INVARIANT Conforms
CHECK_DEADLOCK FALSE
CONSTANTS
  Begin <- RtBegin
  Step <- RtStep
  Accept <- RtAccept
  Expected <- RtExpected
