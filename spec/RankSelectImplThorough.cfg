SPECIFICATION Spec
CONSTANTS W = 1 B = 4 N = 17
INVARIANTS RankOK SelectOK Terminates
CHECK_DEADLOCK FALSE
