SPECIFICATION Spec
CONSTANTS Emit = TRUE
INVARIANTS Refused0 Sound
