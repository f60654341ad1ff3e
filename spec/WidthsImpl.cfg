SPECIFICATION Spec
CONSTANTS Counts = {1, 40, 600, 5000, 70000} MaxBits = 6 Levels = {1, 2, 3, 8} WBits = 7
INVARIANTS SplitOK Optimal UnitsOK ListsOK Emit
CHECK_DEADLOCK FALSE
