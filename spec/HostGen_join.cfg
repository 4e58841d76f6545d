SPECIFICATION Spec
CONSTANTS Menu = "join" Prod = 0 MaxCalls = 1 MaxFrames = 3 MaxTicks = 1 MaxCancels = 0
CHECK_DEADLOCK FALSE
VIEW View
ACTION_CONSTRAINT Emit
