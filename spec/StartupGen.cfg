CONSTANTS
  Prods = {0, 1, 2}
  EpCases = {"none", "most", "all", "others"}
  MaxFaults = 0
  Forms = {TRUE}
SPECIFICATION GSpec
CHECK_DEADLOCK FALSE
