INIT GInit
NEXT GNext
CONSTANTS GenDepth = 5  MaxQ = 2
VIEW GView
CONSTRAINT GBound
ACTION_CONSTRAINT GEmit
CHECK_DEADLOCK FALSE
