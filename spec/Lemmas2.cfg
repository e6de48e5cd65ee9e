SPECIFICATION Spec
CONSTANTS
  N = 2
  Dim = 2
  W = 2
  Box = 0
  Pad = 1
INVARIANTS Answered Caps OneIsFirst PrefixAnswers HalfBox MinImageIsLeast Frames AxisSum Spaces
CHECK_DEADLOCK FALSE
