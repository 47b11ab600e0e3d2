CONSTANTS Lists = {"ab"}
  Types = {"F64"}
  Counts = {2}
  Chunks = {1}
  MaxSegs = 2
  Emit = TRUE
  Sweep = "single"
  Design = "ok"
  Small = FALSE
  Every = FALSE
  Scale = 1
  Uneven = {0}
  Ahead = {"segments"}
SPECIFICATION Spec
INVARIANTS Valid Told
CHECK_DEADLOCK FALSE
