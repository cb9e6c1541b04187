CONSTANTS Blocks = 3
 CheckClose = FALSE
 CheckRename = TRUE
 UseTemp = TRUE
SPECIFICATION Spec
INVARIANTS Atomic Honest
PROPERTY OneWay
CHECK_DEADLOCK FALSE
