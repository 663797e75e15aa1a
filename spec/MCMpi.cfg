INIT Init
NEXT Next
CONSTANTS
  R = 2
  L = 3
  Kinds = {"send", "recv", "isend", "irecv", "wait", "coll"}
INVARIANTS Faithful Unique
CHECK_DEADLOCK FALSE
