SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Right Shows Old Holes Retried
