SPECIFICATION Spec
CONSTANTS
  R = 3
  K = 2
  Workers = {1, 2}
  Buffers = "worker"
  Empty = "no"
  Nested = "no"
  Errors = "kept"
  Place = "row"
INVARIANTS Contract OneRow
PROPERTY Returns
CHECK_DEADLOCK FALSE
