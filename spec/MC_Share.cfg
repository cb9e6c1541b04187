SPECIFICATION Spec
CONSTANTS T = {1, 2, 3}
  X = {1, 2}
  MaxOps = 1
INVARIANTS Allowed Safe AllGone
CHECK_DEADLOCK FALSE
