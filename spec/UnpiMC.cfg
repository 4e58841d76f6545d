SPECIFICATION Spec
CONSTANTS
  Alphabet = {254, 0, 1, 65}
  MaxLen = 8
INVARIANTS SameFrames SameRest Prompt OnlyGood ChunkFree ReadFree
CHECK_DEADLOCK FALSE
