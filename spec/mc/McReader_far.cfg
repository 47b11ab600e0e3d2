CONSTANTS Lists = {"a", "b", "ab", "ba"}
  Types = {"F64"}
  Counts = {1}
  Chunks = {1}
  MaxSegs = 2
  Emit = TRUE
  Sweep = "far"
  Design = "ok"
  Small = FALSE
  Every = FALSE
  Scale = 30000
  Uneven = {0}
  Ahead = {"none"}
SPECIFICATION Spec
INVARIANTS Valid Told
CHECK_DEADLOCK FALSE
