SPECIFICATION Spec
INVARIANT Show
CHECK_DEADLOCK FALSE
