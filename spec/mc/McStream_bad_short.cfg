SPECIFICATION Spec
CONSTANTS Cap = 3
  Calls = 4
  Most = 2
  Errors = 1
  Flaw = "short"
INVARIANTS InOrder Complete Calm
PROPERTIES Surfaced Durable Kept Ends
CHECK_DEADLOCK FALSE
