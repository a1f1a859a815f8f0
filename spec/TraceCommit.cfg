SPECIFICATION CSpec
CONSTRAINT CProgress
POSTCONDITION CAccepted
CHECK_DEADLOCK FALSE
