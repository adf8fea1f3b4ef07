INIT Init
NEXT Next
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK Lockstep Complete2 NoBad BlameOK Blameless Agreement Outcome HonestComplete
CHECK_DEADLOCK FALSE
