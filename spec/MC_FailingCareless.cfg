SPECIFICATION Spec
CONSTANTS
  Pages = {1, 2, 3}
  Txns = 3
  Careful = FALSE
  Fails = 3
INVARIANT Inv
CHECK_DEADLOCK FALSE
