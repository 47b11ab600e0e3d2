CONSTANTS Lists = {"a", "b", "ab", "ba"}
  Types = {"I16", "F64"}
  Counts = {0, 1, 2}
  PropOps = {"A", "G"}
  Refusals = {"odd"}
  Seps = {"look", "reopen", "drop"}
  Depth = 4
  Emit = TRUE
  Starts = {"new"}
  Encode = TRUE
  Design = "ok"
CONSTANT Final <- FinalOps
SPECIFICATION Spec
VIEW Abstract
INVARIANTS IndexShowsAll ReopenAgrees BytesDecode ActiveHasFormat NoDuplicates
CHECK_DEADLOCK FALSE
