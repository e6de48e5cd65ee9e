SPECIFICATION Spec
CONSTANTS
  N = 2
  Dim = 2
  W = 2
  Box = 3
  Pad = 0
INVARIANTS Answered Caps OneIsFirst PrefixAnswers HalfBox MinImageIsLeast Frames AxisSum Spaces
CHECK_DEADLOCK FALSE
