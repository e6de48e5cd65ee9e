SPECIFICATION Spec
CONSTANTS
  Arrs = {0, 1}
  Trees = {0, 1}
  MaxLen = 14
  Owns = TRUE
INVARIANTS Emit
CHECK_DEADLOCK FALSE
