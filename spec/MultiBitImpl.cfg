SPECIFICATION Spec
CONSTANTS PW = 2 KW = 2 Top = 1 N = 6 L2Max = 2
VIEW View
INVARIANTS TypeOK RankOK CharOK
PROPERTY Refines
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
