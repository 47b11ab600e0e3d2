SPECIFICATION Spec
CONSTANTS Whats = {"chunks", "values", "segs", "list", "kv"}
  Bytes = FALSE
  Full = FALSE
CHECK_DEADLOCK FALSE
