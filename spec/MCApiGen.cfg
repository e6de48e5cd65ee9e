SPECIFICATION Spec
CONSTANTS
  Slots = {0}
  MaxLen = 5
  Datas = {"plain", "neg", "empty", "nan"}
  Boxes = {"fit", "tight", "small", "nan", "inf"}
  Asks <- FewAsks
INVARIANTS Emit
CHECK_DEADLOCK FALSE
