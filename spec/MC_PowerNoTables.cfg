SPECIFICATION Spec
CONSTANTS
  Pages = {1, 2}
  Txns = 3
  Losses = 2
  Syncs = {"journal", "header"}
INVARIANT Inv
CHECK_DEADLOCK FALSE
