CONSTANTS Lists = {"a", "b", "ab", "ba"}
  Types = {"F64"}
  Counts = {1, 2}
  Chunks = {1, 2}
  MaxSegs = 2
  Emit = TRUE
  Sweep = "single"
  Design = "ok"
  Small = FALSE
  Every = FALSE
  Scale = 1
  Uneven = {0}
  Ahead = {"values", "behind", "chunks", "segment"}
SPECIFICATION Spec
INVARIANTS Valid Told
CHECK_DEADLOCK FALSE
