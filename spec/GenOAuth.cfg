INIT GInit
NEXT GNext
CONSTANTS MaxTime = 3700  GenDepth = 7  NTok = 2  NCode = 1
VIEW GView
CONSTRAINT GBound
ACTION_CONSTRAINT GEmit
CHECK_DEADLOCK FALSE
