CONSTANTS P = 11
 Ids <- Four
 T = 3
 Count = 3000
SPECIFICATION Spec
INVARIANTS Complete Unique Sound Completes Reuse
CHECK_DEADLOCK FALSE
