SPECIFICATION Spec
CONSTANTS Chars = {1, 2, 3} MinLen = 7 MaxLen = 9
INVARIANTS SAOK LCPOK SkipOK FramesOK RetOK NamesOK Agree
CHECK_DEADLOCK FALSE
