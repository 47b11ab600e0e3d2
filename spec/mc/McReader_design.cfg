CONSTANTS Lists = {"a", "b", "ab", "ba"}
  Types = {"I16"}
  Counts = {1, 2}
  Chunks = {1, 2}
  MaxSegs = 2
  Emit = FALSE
  Sweep = "single"
  Design = "ok"
  Small = FALSE
  Every = FALSE
  Scale = 1
  Uneven = {0, 2}
  Ahead = {"none"}
SPECIFICATION Spec
INVARIANTS ReadsAreSlices NeverTooMuch FetchesNeeded Valid
CHECK_DEADLOCK FALSE
