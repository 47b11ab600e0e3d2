SPECIFICATION Spec
CONSTANTS Whats = {"samples", "writes", "chans", "props", "text", "name"}
  Bytes = TRUE
  Full = FALSE
CHECK_DEADLOCK FALSE
