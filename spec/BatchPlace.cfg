SPECIFICATION Spec
CONSTANTS
  R = 3
  K = 2
  Workers = {1, 2}
  Buffers = "worker"
  Empty = "yes"
  Nested = "no"
  Errors = "kept"
  Place = "worker"
INVARIANTS Contract OneRow
PROPERTY Returns
CHECK_DEADLOCK FALSE
