INIT Init
NEXT Next
INVARIANTS Emit RoundTrip
CHECK_DEADLOCK FALSE
