SPECIFICATION Spec
CONSTANTS Items = {0, 1}
MaxKeys = 3
INVARIANT Same
CHECK_DEADLOCK FALSE
