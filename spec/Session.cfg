INIT Init
NEXT Step
CHECK_DEADLOCK FALSE
