SPECIFICATION Spec
INVARIANTS Disjoint Emit
PROPERTIES NothingLost DurableGrows
CHECK_DEADLOCK FALSE
