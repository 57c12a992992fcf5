SPECIFICATION Spec
CONSTANTS
  Names = {"p", "q"}
  LinesOf <- Mixed
  PerSession = 2
  Crashes = 0
  Cap = "2"
INVARIANT Inv
PROPERTY Lasting
CHECK_DEADLOCK FALSE
