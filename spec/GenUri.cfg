INIT GInit
NEXT GNext
CONSTANTS GenDepth = 3  Wide = TRUE
VIEW GView
CONSTRAINT GBound
ACTION_CONSTRAINT GEmit
CHECK_DEADLOCK FALSE
