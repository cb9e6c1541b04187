SPECIFICATION Spec
CONSTANTS
  Depth = 2
  Wide = 1
INVARIANTS TreeOk NumOk B64Ok
CHECK_DEADLOCK FALSE
