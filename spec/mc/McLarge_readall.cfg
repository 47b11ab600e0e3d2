SPECIFICATION Spec
CONSTANTS Whats = {"chunks", "rows", "values", "segs"}
  Bytes = FALSE
  Full = TRUE
CHECK_DEADLOCK FALSE
