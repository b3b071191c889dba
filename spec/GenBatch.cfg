INIT GInit
NEXT GNext
CONSTANTS GenDepth = 7  MaxTime = 3  NReq = 3  Max = 2
VIEW GView
CONSTRAINT GBound
ACTION_CONSTRAINT GEmit
CHECK_DEADLOCK FALSE
