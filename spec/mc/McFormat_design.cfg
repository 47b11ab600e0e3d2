CONSTANTS Entries = {"none", "prev", "i16", "i32"}
  Pairs = {"none", "prev", "one", "i32"}
  PropsOn = TRUE
  Depth = 2
  Emit = FALSE
  Bytes = TRUE
SPECIFICATION Spec
INVARIANTS ElisionIsInvisible BytesAgree OnlyListedHaveData
PROPERTIES OnlyAdds
CHECK_DEADLOCK FALSE
