SPECIFICATION Spec
CONSTANTS Chars = {1, 2, 3, 5} MinLen = 1 MaxLen = 7
INVARIANTS SAOK LCPOK SkipOK FramesOK RetOK NamesOK Agree
CHECK_DEADLOCK FALSE
