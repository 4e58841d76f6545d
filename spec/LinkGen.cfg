CONSTANTS
  Losses = 2
  Faults = 1
  Stops = 1
  Commands = 2
  Horizon = 45000
  Tick = 1000
  Calls = 0
SPECIFICATION GSpec
CHECK_DEADLOCK FALSE
