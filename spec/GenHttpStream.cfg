INIT GInit
NEXT GNext
CONSTANTS GenDepth = 7 MaxSess = 2 MaxCnt = 5
VIEW GView
CONSTRAINT GBound
ACTION_CONSTRAINT GEmit
CHECK_DEADLOCK FALSE
