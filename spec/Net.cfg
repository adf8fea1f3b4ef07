SPECIFICATION Spec
INVARIANTS TypeOK Lockstep Complete2 NoBad BlameOK Blameless Agreement Outcome HonestComplete
PROPERTIES Ends Final
CHECK_DEADLOCK FALSE
