SPECIFICATION Spec
CONSTANTS
  N = 3
  Dim = 1
  W = 3
  Box = 0
  Pad = 2
INVARIANTS Answered Caps OneIsFirst PrefixAnswers HalfBox MinImageIsLeast Frames AxisSum Spaces
CHECK_DEADLOCK FALSE
