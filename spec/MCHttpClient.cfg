SPECIFICATION MCSpec
CONSTANTS GenDepth = 99  MaxStreams = 2
CONSTRAINT Bound
VIEW MCView
CHECK_DEADLOCK FALSE
INVARIANTS FailsClean OneListener
PROPERTIES Deletes Carries
