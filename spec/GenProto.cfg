INIT GInit
NEXT GNext
CONSTANTS GenDepth = 6 MaxReg = 3
VIEW GView
CONSTRAINT GBound
ACTION_CONSTRAINT GEmit
CHECK_DEADLOCK FALSE
