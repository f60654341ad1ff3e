SPECIFICATION Spec
CONSTANTS Chars = {0, 1} MaxKey = 4 MaxText = 6
INVARIANTS Found KmpOK TurboOK Td2OK Emit
PROPERTY Progress
CHECK_DEADLOCK FALSE
