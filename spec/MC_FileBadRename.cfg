CONSTANTS Blocks = 3
 CheckClose = TRUE
 CheckRename = FALSE
 UseTemp = TRUE
SPECIFICATION Spec
INVARIANTS Atomic Honest
PROPERTY OneWay
CHECK_DEADLOCK FALSE
