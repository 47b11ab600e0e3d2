CONSTANTS Entries = {"none", "prev", "i16", "i32"}
  Pairs = {"none", "prev", "i16", "one"}
  PropsOn = TRUE
  Depth = 2
  Emit = TRUE
  Bytes = FALSE
SPECIFICATION Spec
VIEW Abstract
INVARIANTS ElisionIsInvisible OnlyListedHaveData
CHECK_DEADLOCK FALSE
