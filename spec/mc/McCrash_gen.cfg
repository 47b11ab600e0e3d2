SPECIFICATION Spec
CONSTANTS Design = "ok"
  Use = {1, 2, 3, 4, 5, 6}
  More = {1, 2, 3, 4, 5, 6}
  Depth = 2
  Emit = TRUE
  Mutant = "none"
INVARIANTS Told
CHECK_DEADLOCK FALSE
