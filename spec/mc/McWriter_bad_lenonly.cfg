CONSTANTS Lists = {"a", "b", "ab", "ba"}
  Types = {"I16", "F64"}
  Counts = {0, 1, 2}
  PropOps = {"A", "G"}
  Refusals = {"none", "odd"}
  Seps = {"reopen"}
  Depth = 3
  Emit = FALSE
  Starts = {"new"}
  Encode = FALSE
  Design = "lenonly"
CONSTANT Final <- FinalOps
SPECIFICATION Spec
INVARIANTS IndexShowsAll ReopenAgrees BytesDecode ActiveHasFormat NoDuplicates
PROPERTIES OnlyAppends PropsKept RefusedIsNothing
CHECK_DEADLOCK FALSE
