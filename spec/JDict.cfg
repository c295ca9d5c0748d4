SPECIFICATION Spec
INVARIANT Conforms
CHECK_DEADLOCK FALSE
CONSTANTS
  NSlots = 5
  Begin <- DBegin
  Step <- DStep
  Accept <- DAccept
  Expected <- DExpected
