SPECIFICATION Spec
CONSTANTS Whats = {"name", "groups", "chans", "list"}
  Bytes = FALSE
  Full = FALSE
CHECK_DEADLOCK FALSE
