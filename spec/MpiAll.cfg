INIT Init
NEXT Next
INVARIANTS Unique Nothing
CHECK_DEADLOCK TRUE
