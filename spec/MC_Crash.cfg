SPECIFICATION Spec
CONSTANTS
  Names = {"p", "q"}
  LinesOf <- Small
  PerSession = 2
  Crashes = 1
  Cap = "2"
INVARIANT Inv
PROPERTY Lasting
CHECK_DEADLOCK FALSE
