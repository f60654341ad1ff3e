SPECIFICATION Spec
CONSTANTS Chars = {0, 1, 2} MaxKey = 4 MaxText = 6
INVARIANTS Found KmpOK TurboOK Td2OK
PROPERTY Progress
CHECK_DEADLOCK FALSE
