SPECIFICATION Spec
CONSTANTS Size = 5 Cells = {0, 2, 4} Inits = {0, 2}
VIEW View
INVARIANTS TypeOK FreshOK
PROPERTY Refines

CHECK_DEADLOCK FALSE
