CONSTANTS Kind = "bits"
  Emit = TRUE
CONSTANT First <- DataTypes
CONSTANT Second <- OneType
SPECIFICATION Spec
INVARIANTS Told Self SwapTwice TokensDecode SameWidth
CHECK_DEADLOCK FALSE
