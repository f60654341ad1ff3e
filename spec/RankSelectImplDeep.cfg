SPECIFICATION Spec
CONSTANTS W = 1 B = 4 N = 13
INVARIANTS RankOK SelectOK Terminates
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
