SPECIFICATION Spec
CONSTANTS
  KeySet <- AllKeys
  Length = 5
  MaxSubmit = 0
  MaxOther = 0
  SavedLines = 0
  Cap = 4
INVARIANT Inv
PROPERTIES Steps Kept
CHECK_DEADLOCK FALSE
