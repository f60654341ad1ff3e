SPECIFICATION Spec
CONSTANTS Base = 2
N = 6
Vals = {"a", "b", "c"}
INVARIANTS Same Canonical Counts Windows
CHECK_DEADLOCK FALSE
