INIT GInit
NEXT GNext
CONSTANTS GenDepth = 9 MaxCalls = 4
VIEW GView
CONSTRAINT GBound
ACTION_CONSTRAINT GEmit
CHECK_DEADLOCK FALSE
