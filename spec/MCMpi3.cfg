INIT Init
NEXT Next
CONSTANTS
  R = 3
  L = 2
  Kinds = {"send", "recv", "coll"}
INVARIANTS Faithful Unique
CHECK_DEADLOCK FALSE
