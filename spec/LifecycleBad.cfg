SPECIFICATION Spec
CONSTANTS T = 3 Check = FALSE NP = 3
INVARIANTS NeverEarly Zero Blame Callbacks

CHECK_DEADLOCK FALSE
