SPECIFICATION Spec
CONSTANTS
  Names = {"p", "q", "r"}
  LinesOf <- Small
  PerSession = 1
  Crashes = 0
  Cap = "2"
INVARIANT Inv
PROPERTY Lasting
CHECK_DEADLOCK FALSE
