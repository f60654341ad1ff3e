SPECIFICATION Spec
CONSTANTS LF = 25 Buckets = {1, 4} KeySeq <- Keys4 Vals = {0, 1} Reserves = {0, 3}
VIEW View
INVARIANTS SizeOK UsedOK RunsOK
PROPERTY Refines
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
