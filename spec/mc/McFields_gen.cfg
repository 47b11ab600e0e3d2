CONSTANTS Emit = TRUE
SPECIFICATION Spec
INVARIANTS Legal Told
CHECK_DEADLOCK FALSE
