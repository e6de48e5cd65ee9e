SPECIFICATION Spec
CONSTANTS
  Slots = {0, 1}
  MaxLen = 12
  Datas = {"plain", "one", "neg", "empty", "nan", "inf"}
  Boxes = {"fit", "tight", "loose", "small", "nan", "inf", "-inf"}
  Asks <- AllAsks
INVARIANTS TotalNew TotalBox TotalAsk NoWrongBox NoBadData
PROPERTIES QueriesReadOnly OthersUntouched
VIEW View
CHECK_DEADLOCK FALSE
