CONSTANTS Lists = {"c", "abc", "a", "b", "ab", "ba"}
  Types = {"I16", "F64"}
  Counts = {0, 1, 2}
  PropOps = {"G"}
  Refusals = {}
  Seps = {"reopen"}
  Depth = 3
  Emit = TRUE
  Starts = {"mixed", "mixed2", "big", "empty", "none", "idle", "grown", "changed", "third", "unit"}
  Encode = TRUE
  Design = "ok"
CONSTANT Final <- FinalOps
SPECIFICATION Spec
VIEW Abstract
INVARIANTS IndexShowsAll ReopenAgrees BytesDecode ActiveHasFormat NoDuplicates
CHECK_DEADLOCK FALSE
