SPECIFICATION Spec
CONSTANTS
  R = 4
  K = 2
  Workers = {1, 2, 3}
  Buffers = "worker"
  Empty = "yes"
  Nested = "no"
  Errors = "kept"
  Place = "row"
INVARIANTS Contract OneRow
PROPERTY Returns
CHECK_DEADLOCK FALSE
