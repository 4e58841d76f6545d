CONSTANTS
  Losses = 1
  Faults = 1
  Stops = 0
  Commands = 2
  Horizon = 45000
  Tick = 1000
  Calls = 1
SPECIFICATION Spec
INVARIANTS Sound OnePort DeadIsClosed NoCallMoves
PROPERTIES Recovers CallsEnd
CHECK_DEADLOCK FALSE
