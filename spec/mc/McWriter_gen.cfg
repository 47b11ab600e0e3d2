CONSTANTS Lists = {"a", "b", "ab", "ba"}
  Types = {"I16"}
  Counts = {0, 1, 2}
  PropOps = {}
  Refusals = {}
  Seps = {"look", "reopen"}
  Depth = 4
  Emit = TRUE
  Starts = {"new"}
  Encode = TRUE
  Design = "ok"
CONSTANT Final <- FinalOne
SPECIFICATION Spec
VIEW Abstract
INVARIANTS IndexShowsAll ReopenAgrees BytesDecode ActiveHasFormat NoDuplicates
CHECK_DEADLOCK FALSE
