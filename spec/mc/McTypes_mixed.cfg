CONSTANTS Kind = "mixed"
  Emit = TRUE
CONSTANT First <- DataTypes
CONSTANT Second <- DataTypes
SPECIFICATION Spec
INVARIANTS Told Self SwapTwice TokensDecode SameWidth
CHECK_DEADLOCK FALSE
