INIT GInit
NEXT GNext
CONSTANTS GenDepth = 4  MaxBuf = 100  MaxLevel = 99
VIEW GView
CONSTRAINT GBound
ACTION_CONSTRAINT GEmit
CHECK_DEADLOCK FALSE
