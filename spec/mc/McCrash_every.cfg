SPECIFICATION Spec
CONSTANTS Design = "ok"
  Use = {1, 2, 3, 4, 5, 6}
  More = {1, 2, 3, 4, 5, 6}
  Depth = 2
  Emit = FALSE
  Mutant = "none"
INVARIANTS Prefix0 Verdicts Survives Accepted
CHECK_DEADLOCK FALSE
