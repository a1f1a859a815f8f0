SPECIFICATION PSpec
CONSTRAINT PProgress
POSTCONDITION PAccepted
CHECK_DEADLOCK FALSE
VIEW PView
