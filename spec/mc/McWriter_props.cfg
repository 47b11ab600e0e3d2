CONSTANTS Lists = {"a", "ab"}
  Types = {"I16"}
  Counts = {1}
  PropOps = {"A", "A2", "N", "G", "F", "B"}
  Refusals = {}
  Seps = {"look", "reopen"}
  Depth = 4
  Emit = TRUE
  Starts = {"new"}
  Encode = TRUE
  Design = "ok"
CONSTANT Final <- FinalOne
SPECIFICATION Spec
VIEW Abstract
INVARIANTS IndexShowsAll ReopenAgrees BytesDecode ActiveHasFormat NoDuplicates
CHECK_DEADLOCK FALSE
