CONSTANTS
  Losses = 2
  Faults = 1
  Stops = 1
  Commands = 2
  Horizon = 45000
  Tick = 1000
  Calls = 0
SPECIFICATION Spec
INVARIANTS Sound OnePort DeadIsClosed
PROPERTIES Recovers
CHECK_DEADLOCK FALSE
