SPECIFICATION Spec
CONSTANTS T = 0 Check = TRUE NP = 3
INVARIANTS NeverEarly Zero Blame Callbacks
PROPERTIES Atomic Final
CHECK_DEADLOCK FALSE
