SPECIFICATION Fair
CONSTANTS Threads = {1, 2}
 Calls = 2
 Top = 3
 Bug = "none"
INVARIANTS Explained Distinct
PROPERTIES Ends
CHECK_DEADLOCK FALSE
