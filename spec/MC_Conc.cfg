SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Quiet
INVARIANT Faithful
INVARIANT Caught
POSTCONDITION AllCaught
