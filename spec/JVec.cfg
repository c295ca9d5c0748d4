SPECIFICATION Spec
INVARIANT Conforms
CHECK_DEADLOCK FALSE
CONSTANTS
  NSlots = 5
  Begin <- VBegin
  Step <- VStep
  Accept <- VAccept
  Expected <- VExpected
