SPECIFICATION Spec
CONSTANTS
  MaxTokens = 4
  Small = FALSE
INVARIANTS Same Honest Complete
CHECK_DEADLOCK FALSE
