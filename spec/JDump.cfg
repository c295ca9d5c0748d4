SPECIFICATION Spec
INVARIANT Conforms
CHECK_DEADLOCK FALSE
CONSTANTS
  Begin <- DuBegin
  Step <- DuStep
  Accept <- DuAccept
  Expected <- DuExpected
