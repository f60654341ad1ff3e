SPECIFICATION Spec
CONSTANTS H = 2 N = 7
INVARIANTS QueriesOK CharOK
CHECK_DEADLOCK FALSE
