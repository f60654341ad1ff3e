SPECIFICATION Spec
CONSTANTS Chars = {0, 1} MaxKey = 4 MaxText = 8
INVARIANTS Found KmpOK TurboOK Td2OK
PROPERTY Progress
CHECK_DEADLOCK FALSE
