INIT GInit
NEXT GNext
CONSTANTS MaxTime = 3  GenDepth = 7  NIds = 3
VIEW GView
CONSTRAINT GBound
ACTION_CONSTRAINT GEmit
CHECK_DEADLOCK FALSE
