SPECIFICATION Spec
CONSTANTS B = 4 N = 3 MaxLayers = 4
INVARIANTS AccessOK DepthOK
CHECK_DEADLOCK FALSE
