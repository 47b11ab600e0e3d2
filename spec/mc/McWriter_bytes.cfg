CONSTANTS Lists = {"a", "b", "ab", "ba"}
  Types = {"I16", "F64"}
  Counts = {0, 1, 2}
  PropOps = {"A2", "F"}
  Refusals = {}
  Seps = {}
  Depth = 3
  Emit = TRUE
  Starts = {"new"}
  Encode = TRUE
  Design = "ok"
CONSTANT Final <- FinalBytes
SPECIFICATION Spec
VIEW Abstract
INVARIANTS IndexShowsAll ReopenAgrees BytesDecode ActiveHasFormat NoDuplicates
CHECK_DEADLOCK FALSE
