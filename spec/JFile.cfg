SPECIFICATION Spec
INVARIANT Conforms
CHECK_DEADLOCK FALSE
CONSTANTS
  Begin <- FiBegin
  Step <- FiStep
  Accept <- FiAccept
  Expected <- FiExpected
