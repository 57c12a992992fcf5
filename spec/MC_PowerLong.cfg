SPECIFICATION Spec
CONSTANTS
  Pages = {1, 2, 3}
  Txns = 4
  Losses = 3
  Syncs = {"journal","header","tables"}
INVARIANT Inv
CHECK_DEADLOCK FALSE
