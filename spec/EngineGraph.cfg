SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK PastComplete
PROPERTIES Final Keep OneRound Blame NotLost
CHECK_DEADLOCK FALSE
