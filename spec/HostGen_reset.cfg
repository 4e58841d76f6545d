SPECIFICATION Spec
CONSTANTS Menu = "reset" Prod = 0 MaxCalls = 2 MaxFrames = 2 MaxTicks = 1 MaxCancels = 1
CHECK_DEADLOCK FALSE
VIEW View
ACTION_CONSTRAINT Emit
