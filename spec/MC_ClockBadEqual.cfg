SPECIFICATION Spec
CONSTANTS Threads = {1, 2}
 Calls = 2
 Top = 3
 Bug = "equal"
INVARIANTS Explained Distinct

CHECK_DEADLOCK FALSE
