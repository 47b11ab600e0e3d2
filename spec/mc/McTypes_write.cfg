CONSTANTS Kind = "write"
  Emit = TRUE
CONSTANT First <- WriteTypes
CONSTANT Second <- WriteTypes
SPECIFICATION Spec
INVARIANTS Told Self SwapTwice TokensDecode SameWidth
CHECK_DEADLOCK FALSE
