SPECIFICATION Spec
CONSTANTS
  MaxTokens = 6
  Small = TRUE
INVARIANTS Same Honest Complete
CHECK_DEADLOCK FALSE
