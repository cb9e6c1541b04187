SPECIFICATION Spec
CONSTANTS Threads = {1, 2, 3}
 Calls = 2
 Bug = "nolock"
INVARIANTS Unique
PROPERTIES Ends
CHECK_DEADLOCK FALSE
