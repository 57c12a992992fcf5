SPECIFICATION Spec
CONSTANTS
  Pages = {1, 2, 3}
  Txns = 3
  Careful = TRUE
  Fails = 3
INVARIANT Inv
CHECK_DEADLOCK FALSE
