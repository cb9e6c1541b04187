SPECIFICATION Spec
CONSTANTS T = {1, 2, 3}
  Refs = 2
  MaxOps = 2
INVARIANTS Same NoStall NoLoss
PROPERTY Final
CHECK_DEADLOCK FALSE
