CONSTANTS P = 7
 Ids <- Three
 T = 1
 Count = 3000
SPECIFICATION Spec
INVARIANTS Complete Unique Sound Completes Reuse
CHECK_DEADLOCK FALSE
