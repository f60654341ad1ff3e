SPECIFICATION Spec
CONSTANTS Chars = {1, 2} MinLen = 12 MaxLen = 15
INVARIANTS SAOK LCPOK SkipOK FramesOK RetOK NamesOK Agree
CHECK_DEADLOCK FALSE
