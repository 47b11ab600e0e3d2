CONSTANTS Lists = {"a", "ab", "ba"}
  Types = {"I16"}
  Counts = {1, 2}
  PropOps = {"A"}
  Refusals = {"none", "zero", "odd", "odd3", "str", "strab"}
  Seps = {"drop"}
  Depth = 3
  Emit = TRUE
  Starts = {"new"}
  Encode = TRUE
  Design = "ok"
CONSTANT Final <- FinalOps
SPECIFICATION Spec
VIEW Abstract
INVARIANTS IndexShowsAll ReopenAgrees BytesDecode ActiveHasFormat NoDuplicates
CHECK_DEADLOCK FALSE
