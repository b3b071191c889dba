INIT GInit
NEXT GNext
CONSTANTS GenDepth = 4  MaxReq = 4  Known = {}
VIEW GView
CONSTRAINT GBound
ACTION_CONSTRAINT GEmit
CHECK_DEADLOCK FALSE
