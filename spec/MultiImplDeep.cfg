SPECIFICATION Spec
CONSTANTS K = 2 NF = 2 N = 2
VIEW View
INVARIANTS TypeOK GetOK
PROPERTY Refines
CHECK_DEADLOCK FALSE
