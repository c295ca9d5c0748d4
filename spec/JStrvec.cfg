SPECIFICATION Spec
INVARIANT Conforms
CHECK_DEADLOCK FALSE
CONSTANTS
  NSlots = 5
  Begin <- SVBegin
  Step <- SVStep
  Accept <- SVAccept
  Expected <- SVExpected
