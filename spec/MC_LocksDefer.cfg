SPECIFICATION Spec
CONSTANTS
  Sessions = {p, q, r}
  Kinds = {"imm", "defer"}
  Rounds = 2
INVARIANT Inv
CHECK_DEADLOCK FALSE
