SPECIFICATION Spec
CONSTANTS
  Arrs = {0, 1}
  Trees = {0, 1}
  MaxLen = 100
  Owns = FALSE
INVARIANTS TypeOK NoDangling NoLeak
VIEW View
CHECK_DEADLOCK FALSE
