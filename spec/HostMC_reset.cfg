SPECIFICATION Spec
CONSTANTS Menu = "reset" Prod = 0 MaxCalls = 2 MaxFrames = 2 MaxTicks = 1 MaxCancels = 1
CHECK_DEADLOCK FALSE
INVARIANTS NeverStuck SentOnce DirectInOrder NothingWhileBusy Slotted CancelledUnsent HonestResults InTime TellOncePerReply NumberOfARequest NoFailedExpectation OneTellPerRequest JoinsTold KnownOnly NoLed
PROPERTIES SilentWhenClosed
