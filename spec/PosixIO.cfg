SPECIFICATION Spec
INVARIANTS Exact Frame
PROPERTY Terminates
CHECK_DEADLOCK FALSE
