SPECIFICATION Spec
CONSTANTS
  Slots = {0, 1, 2}
  MaxLen = 24
  Datas = {"plain", "one", "neg", "empty", "nan", "inf"}
  Boxes = {"fit", "tight", "loose", "small", "nan", "inf", "-inf"}
  Asks <- AllAsks
INVARIANTS Emit
CHECK_DEADLOCK FALSE
