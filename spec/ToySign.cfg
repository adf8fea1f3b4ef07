CONSTANTS P = 3
 Ids <- Two
 T = 1
 Count = 0
SPECIFICATION Spec
INVARIANTS Complete Unique Sound Completes Reuse
CHECK_DEADLOCK FALSE
