SPECIFICATION Spec
CONSTANTS W = 2 B = 2 N = 9
INVARIANTS RankOK SelectOK CharOK Terminates
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
