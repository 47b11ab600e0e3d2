CONSTANTS Max = 31
  SMax = 15
  Lead = 2
  Stream = 14
  Words = {0, 1, 2, 5, 11, 13, 14, 15, 29, 30, 31}
  Counts = {0, 1, 3, 16, 31}
  Widths = {0, 1, 2}
  Depth = 2
  Design = "divide"
SPECIFICATION Spec
VIEW View
INVARIANTS Sound WalkEnds
PROPERTIES Advances
CHECK_DEADLOCK FALSE
