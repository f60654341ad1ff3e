SPECIFICATION Spec
CONSTANTS Chars = {1, 2, 3} MinLen = 0 MaxLen = 6
INVARIANTS SAOK LCPOK SkipOK FramesOK RetOK NamesOK Agree AgreeLCP Emit
CHECK_DEADLOCK FALSE
