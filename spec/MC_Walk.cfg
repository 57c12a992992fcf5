SPECIFICATION Spec
CONSTANTS
  KeySet <- WalkKeys
  Length = 2
  MaxSubmit = 1
  MaxOther = 1
  SavedLines = 2
  Cap = 3
INVARIANT Inv
PROPERTIES Steps Kept
CHECK_DEADLOCK FALSE
