SPECIFICATION Spec
CONSTANTS Threads = {1, 2, 3}
 Calls = 2
 Bug = "none"
INVARIANTS Unique
PROPERTIES Ends
CHECK_DEADLOCK FALSE
