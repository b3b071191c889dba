INIT GInit
NEXT GNext
CONSTANTS GenDepth = 5  MaxV = 3  MaxT = 400
VIEW GView
CONSTRAINT GBound
ACTION_CONSTRAINT GEmit
CHECK_DEADLOCK FALSE
