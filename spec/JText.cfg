SPECIFICATION Spec
INVARIANT Conforms
CHECK_DEADLOCK FALSE
CONSTANTS
  Begin <- TBegin
  Step <- TStep
  Accept <- TAccept
  Expected <- TExpected
