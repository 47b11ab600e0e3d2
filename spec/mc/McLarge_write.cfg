SPECIFICATION Spec
CONSTANTS Whats = {"samples", "writes", "chans"}
  Bytes = FALSE
  Full = FALSE
CHECK_DEADLOCK FALSE
