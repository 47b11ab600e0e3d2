CONSTANTS Letters = {"slash", "quote", "a"}
  MaxText = 8
  MaxName = 0
  Emit = TRUE
SPECIFICATION Spec
INVARIANTS Rebuilt NamesBalanced Kinds Told
CHECK_DEADLOCK FALSE
