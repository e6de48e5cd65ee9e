SPECIFICATION Spec
CONSTANTS
  N = 3
  Dim = 1
  W = 4
  Box = 4
  Pad = 0
INVARIANTS Answered Caps OneIsFirst PrefixAnswers HalfBox MinImageIsLeast Frames AxisSum Spaces
CHECK_DEADLOCK FALSE
