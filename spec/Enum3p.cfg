SPECIFICATION Spec
CONSTANTS
  D = 3
  MaxN = 2
  Side = 2
  Leaves = {1}
  BoxSides = {2}
INVARIANT Emit
CHECK_DEADLOCK FALSE
