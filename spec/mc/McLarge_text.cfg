SPECIFICATION Spec
CONSTANTS Whats = {"props", "text", "kv"}
  Bytes = FALSE
  Full = FALSE
CHECK_DEADLOCK FALSE
