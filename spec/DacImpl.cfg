SPECIFICATION Spec
CONSTANTS B = 3 N = 3 MaxLayers = 3
INVARIANTS AccessOK DepthOK
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
