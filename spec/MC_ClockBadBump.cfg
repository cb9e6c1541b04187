SPECIFICATION Spec
CONSTANTS Threads = {1, 2}
 Calls = 2
 Top = 3
 Bug = "bump"
INVARIANTS Explained Distinct

CHECK_DEADLOCK FALSE
