SPECIFICATION Spec
CONSTANTS T = {1, 2}
  Refs = 2
  MaxOps = 3
INVARIANTS Same NoStall NoLoss
PROPERTY Final
CHECK_DEADLOCK FALSE
