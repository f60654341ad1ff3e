SPECIFICATION Spec
CONSTANTS Size = 6 Cells = {0, 1, 2, 4} Inits = {2}
VIEW View
INVARIANTS TypeOK FreshOK
PROPERTY Refines

CHECK_DEADLOCK FALSE
