SPECIFICATION Spec
CONSTANTS Counts = {1, 3, 40, 600, 5000, 70000} MaxBits = 8 Levels = {1, 2, 3, 8} WBits = 10
INVARIANTS SplitOK Optimal UnitsOK ListsOK
CHECK_DEADLOCK FALSE
