SPECIFICATION Spec
CONSTANTS Design = "ok"
  Use = {1, 3, 5}
  More = {3, 5}
  Depth = 2
  Emit = FALSE
  Mutant = "none"
INVARIANTS Prefix0 Verdicts Survives Accepted
CHECK_DEADLOCK FALSE
