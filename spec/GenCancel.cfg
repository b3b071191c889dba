INIT GInit
NEXT GNext
CONSTANTS GenDepth = 5  MaxH = 3
VIEW GView
CONSTRAINT GBound
ACTION_CONSTRAINT GEmit
CHECK_DEADLOCK FALSE
