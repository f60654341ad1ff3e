SPECIFICATION Spec
CONSTANTS Chars = {0, 1} MaxKey = 6 MaxText = 9
INVARIANTS Found KmpOK TurboOK Td2OK
PROPERTY Progress
CHECK_DEADLOCK FALSE
