CONSTANTS Kind = "both"
  Emit = TRUE
CONSTANT First <- DataTypes
CONSTANT Second <- DataTypes
SPECIFICATION Spec
INVARIANTS Told Self SwapTwice TokensDecode SameWidth
CHECK_DEADLOCK FALSE
