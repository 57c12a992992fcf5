SPECIFICATION Spec
CONSTANTS
  MaxTokens = 5
  Small = FALSE
INVARIANTS Same Honest Complete
CHECK_DEADLOCK FALSE
