SPECIFICATION Spec
CONSTANTS T = 3 Check = TRUE NP = 3
INVARIANTS NeverEarly Zero Blame Callbacks
PROPERTIES Atomic Final Ends
CHECK_DEADLOCK FALSE
