SPECIFICATION Spec
CONSTANTS Side = "read"
  Afters = {0, 1, 2}
  Opens = 40
INVARIANTS Sound
CHECK_DEADLOCK FALSE
