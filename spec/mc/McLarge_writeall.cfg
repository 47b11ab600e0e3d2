SPECIFICATION Spec
CONSTANTS Whats = {"samples", "writes", "chans"}
  Bytes = FALSE
  Full = TRUE
CHECK_DEADLOCK FALSE
