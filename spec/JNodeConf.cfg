SPECIFICATION Spec
INVARIANT Conforms
CHECK_DEADLOCK FALSE
CONSTANTS
  Begin <- NCBegin
  Step <- NCStep
  Accept <- NCAccept
  Expected <- NCExpected
