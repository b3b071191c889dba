INIT GInit
NEXT GNext
CONSTANTS GenDepth = 6  MaxT = 1000
VIEW GView
CONSTRAINT GBound
ACTION_CONSTRAINT GEmit
CHECK_DEADLOCK FALSE
