SPECIFICATION Spec
INVARIANT Determinate
CHECK_DEADLOCK FALSE
CONSTANT Length = 2
