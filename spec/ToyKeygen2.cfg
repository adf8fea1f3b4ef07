CONSTANTS P = 5
 T = 2
SPECIFICATION Spec
INVARIANTS NoInconsistent SharesMatch OneKey Reconstruct SamePublic
CHECK_DEADLOCK FALSE
