INIT GInit
NEXT GNext
CONSTANTS GenDepth = 4  MaxStreams = 2
VIEW GView
CONSTRAINT GBound
ACTION_CONSTRAINT GEmit
CHECK_DEADLOCK FALSE
