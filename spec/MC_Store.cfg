SPECIFICATION Spec
CONSTANTS
  Texts = {"x", "y"}
  Names = {"$a", "$b"}
  Caps = {"1", "2", "3", "100"}
  MaxId = 4
INVARIANTS Inv Agree
PROPERTY Monotone
CHECK_DEADLOCK FALSE
