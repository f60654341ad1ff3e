SPECIFICATION Spec
CONSTANTS PW = 2 KW = 2 Top = 2 N = 5 L2Max = 2
VIEW View
INVARIANTS TypeOK RankOK CharOK
PROPERTY Refines
CHECK_DEADLOCK FALSE
