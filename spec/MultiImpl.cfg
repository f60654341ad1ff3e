SPECIFICATION Spec
CONSTANTS K = 3 NF = 2 N = 1
VIEW View
INVARIANTS TypeOK GetOK
PROPERTY Refines
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
