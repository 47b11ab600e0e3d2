SPECIFICATION Spec
CONSTANTS Side = "edge"
  Afters = {0, 1, 2}
  Opens = 40
INVARIANTS Sound
CHECK_DEADLOCK FALSE
