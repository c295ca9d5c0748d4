SPECIFICATION Spec
INVARIANT Conforms
CHECK_DEADLOCK FALSE
CONSTANTS
  Begin <- CFBegin
  Step <- CFStep
  Accept <- CFAccept
  Expected <- CFExpected
