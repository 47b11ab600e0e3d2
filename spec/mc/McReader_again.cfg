CONSTANTS Lists = {"a", "ab", "ba"}
  Types = {"I16"}
  Counts = {2}
  Chunks = {1, 2}
  MaxSegs = 2
  Emit = TRUE
  Sweep = "again"
  Design = "ok"
  Small = FALSE
  Every = FALSE
  Scale = 1
  Uneven = {0, 1}
  Ahead = {"none"}
SPECIFICATION Spec
INVARIANTS Valid Told
CHECK_DEADLOCK FALSE
