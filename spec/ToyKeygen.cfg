CONSTANTS P = 5
 T = 1
SPECIFICATION Spec
INVARIANTS NoInconsistent SharesMatch OneKey Reconstruct SamePublic
CHECK_DEADLOCK FALSE
