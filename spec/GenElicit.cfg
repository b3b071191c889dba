INIT GInit
NEXT GNext
CONSTANTS GenDepth = 6  MaxTime = 3  NAsk = 2
VIEW GView
CONSTRAINT GBound
ACTION_CONSTRAINT GEmit
CHECK_DEADLOCK FALSE
