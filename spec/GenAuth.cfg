INIT GInit
NEXT GNext
CONSTANTS GenDepth = 6
VIEW GView
CONSTRAINT GBound
ACTION_CONSTRAINT GEmit
CHECK_DEADLOCK FALSE
