CONSTANTS Lists = {"a", "ab", "bc", "abc", "cab", "c"}
  Types = {"I16", "F64"}
  Counts = {1, 2}
  PropOps = {}
  Refusals = {}
  Seps = {"reopen"}
  Depth = 5
  Emit = TRUE
  Starts = {"new"}
  Encode = TRUE
  Design = "ok"
CONSTANT Final <- FinalOps
SPECIFICATION Spec
VIEW Abstract
INVARIANTS IndexShowsAll ReopenAgrees BytesDecode ActiveHasFormat NoDuplicates
CHECK_DEADLOCK FALSE
