SPECIFICATION MCSpec
CONSTANTS GenDepth = 99  MaxTold = 1
CONSTRAINT MCBound
VIEW MCView
CHECK_DEADLOCK FALSE
INVARIANTS Told Kept Advertised
PROPERTY Once
