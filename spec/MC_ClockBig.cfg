SPECIFICATION Fair
CONSTANTS Threads = {1, 2, 3}
 Calls = 2
 Top = 2
 Bug = "none"
INVARIANTS Explained Distinct
PROPERTIES Ends
CHECK_DEADLOCK FALSE
