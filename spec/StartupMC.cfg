CONSTANTS
  Prods = {0, 1, 2}
  EpCases = {"most"}
  MaxFaults = 1
  Forms = {TRUE}
SPECIFICATION Spec
INVARIANTS Sound Stable
CHECK_DEADLOCK FALSE
