SPECIFICATION Spec
CONSTANTS
  Emit = TRUE
INVARIANT Told
CHECK_DEADLOCK FALSE
