SPECIFICATION Spec
CONSTANTS
  MaxTokens = 7
  Small = TRUE
INVARIANTS Same Honest Complete
CHECK_DEADLOCK FALSE
