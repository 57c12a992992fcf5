SPECIFICATION Spec
CONSTANTS
  Sessions = {p, q, r}
  Kinds = {"imm", "auto", "read"}
  Rounds = 2
INVARIANT Inv
PROPERTY Progress
CHECK_DEADLOCK FALSE
