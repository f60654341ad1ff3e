SPECIFICATION Spec
CONSTANTS Chars = {1, 2} MinLen = 7 MaxLen = 11
INVARIANTS SAOK LCPOK SkipOK FramesOK RetOK NamesOK Agree Emit
CHECK_DEADLOCK FALSE
