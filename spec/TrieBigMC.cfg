SPECIFICATION Spec
CONSTANTS Items = {0, 1}
Strings <- Strs
MaxKeys = 3
INVARIANT Same
CHECK_DEADLOCK FALSE
