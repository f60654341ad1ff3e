SPECIFICATION Spec
CONSTANTS H = 3 N = 4
INVARIANTS QueriesOK CharOK
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
