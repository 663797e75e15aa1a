SPECIFICATION TSpec
CONSTANTS
  Handles = {0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15}
  Files = {0,1,2,3}
CHECK_DEADLOCK FALSE
