INIT Init
NEXT Next
INVARIANT Laws
CONSTANTS MaxR = 36  MaxN = 80
CHECK_DEADLOCK FALSE
