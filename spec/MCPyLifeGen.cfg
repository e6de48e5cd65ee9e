SPECIFICATION Spec
CONSTANTS
  Arrs = {0}
  Trees = {0}
  MaxLen = 5
  Owns = TRUE
INVARIANTS Emit
CHECK_DEADLOCK FALSE
