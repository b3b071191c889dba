INIT GInit
NEXT GNext
CONSTANTS GenDepth = 5  MaxN = 6  MaxT = 44
VIEW GView
CONSTRAINT GBound
ACTION_CONSTRAINT GEmit
CHECK_DEADLOCK FALSE
