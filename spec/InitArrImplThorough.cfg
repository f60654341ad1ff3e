SPECIFICATION Spec
CONSTANTS Size = 8 Cells = {0, 2, 4, 6} Inits = {2}
VIEW View
INVARIANTS TypeOK FreshOK
PROPERTY Refines

CHECK_DEADLOCK FALSE
