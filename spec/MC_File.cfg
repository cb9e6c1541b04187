CONSTANTS Blocks = 3
 CheckClose = TRUE
 CheckRename = TRUE
 UseTemp = TRUE
SPECIFICATION Spec
INVARIANTS Atomic Honest
PROPERTY OneWay
CHECK_DEADLOCK FALSE
