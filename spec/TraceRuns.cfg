SPECIFICATION TraceSpec
CONSTANT Base = 1048576
CHECK_DEADLOCK TRUE
