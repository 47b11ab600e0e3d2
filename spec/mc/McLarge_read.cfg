SPECIFICATION Spec
CONSTANTS Whats = {"chunks", "rows", "values", "segs"}
  Bytes = FALSE
  Full = FALSE
CHECK_DEADLOCK FALSE
