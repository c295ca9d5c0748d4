SPECIFICATION Spec
INVARIANT Conforms
CHECK_DEADLOCK FALSE
CONSTANTS
  Begin <- CLBegin
  Step <- CLStep
  Accept <- CLAccept
  Expected <- CLExpected
