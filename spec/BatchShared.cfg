SPECIFICATION Spec
CONSTANTS
  R = 3
  K = 2
  Workers = {1, 2}
  Buffers = "one"
  Empty = "yes"
  Nested = "no"
  Errors = "kept"
  Place = "row"
INVARIANTS Contract OneRow
PROPERTY Returns
CHECK_DEADLOCK FALSE
