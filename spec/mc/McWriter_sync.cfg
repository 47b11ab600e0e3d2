CONSTANTS Lists = {"a", "ab", "ba"}
  Types = {"I16"}
  Counts = {0, 1, 2}
  PropOps = {"A"}
  Refusals = {}
  Seps = {"drop", "sync"}
  Depth = 4
  Emit = TRUE
  Starts = {"new"}
  Encode = TRUE
  Design = "ok"
CONSTANT Final <- FinalBytes
SPECIFICATION Spec
VIEW Abstract
INVARIANTS IndexShowsAll ReopenAgrees BytesDecode ActiveHasFormat NoDuplicates
CHECK_DEADLOCK FALSE
