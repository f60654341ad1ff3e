SPECIFICATION Spec
CONSTANTS PageSize = 2
N = 5
Vals = {0, 1, 2}
Chars = {0, 1, 2}
MaxText = 6
INVARIANTS Same OracleSame
CHECK_DEADLOCK FALSE
