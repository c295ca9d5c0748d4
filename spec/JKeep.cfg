SPECIFICATION Spec
INVARIANT Conforms
CHECK_DEADLOCK FALSE
CONSTANTS
  Begin <- KeBegin
  Step <- KeStep
  Accept <- KeAccept
  Expected <- KeExpected
