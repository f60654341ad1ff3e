SPECIFICATION Spec
CONSTANTS Size = 4 Cells = {0, 1, 2, 7} Inits = {0, 2}
VIEW View
INVARIANTS TypeOK FreshOK
PROPERTY Refines
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
