CONSTANTS Entries = {"none", "prev", "i16", "i32", "one", "zero"}
  Pairs = {"none", "prev", "i16", "one", "zero"}
  PropsOn = TRUE
  Depth = 4
  Emit = TRUE
  Bytes = FALSE
SPECIFICATION Spec
VIEW Abstract
INVARIANTS ElisionIsInvisible OnlyListedHaveData
CHECK_DEADLOCK FALSE
