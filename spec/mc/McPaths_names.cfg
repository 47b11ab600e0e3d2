CONSTANTS Letters = {"slash", "quote", "a", "dquote", "uml"}
  MaxText = 4
  MaxName = 2
  Emit = TRUE
SPECIFICATION Spec
INVARIANTS Rebuilt NamesBalanced Kinds Told
CHECK_DEADLOCK FALSE
