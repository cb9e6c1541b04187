SPECIFICATION Spec
CONSTANTS
  Depth = 2
  Wide = 9
INVARIANTS TreeOk NumOk B64Ok
CHECK_DEADLOCK FALSE
