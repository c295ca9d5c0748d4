SPECIFICATION Spec
INVARIANT Conforms
CHECK_DEADLOCK FALSE
CONSTANTS
  Begin <- YBegin
  Step <- YStep
  Accept <- YAccept
  Expected <- YExpected
