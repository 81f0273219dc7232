SPECIFICATION Spec
INVARIANT Accepted
INVARIANT Complete
CHECK_DEADLOCK FALSE
ALIAS Brief
