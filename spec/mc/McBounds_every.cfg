CONSTANTS Max = 63
  SMax = 31
  Lead = 2
  Stream = 30
  Words = {0, 1, 2, 3, 7, 12, 15, 28, 29, 30, 31, 32, 61, 62, 63}
  Counts = {0, 1, 2, 5, 32, 63}
  Widths = {0, 1, 2}
  Depth = 3
  Design = "good"
SPECIFICATION Spec
VIEW View
INVARIANTS Sound WalkEnds
PROPERTIES Advances
CHECK_DEADLOCK FALSE
