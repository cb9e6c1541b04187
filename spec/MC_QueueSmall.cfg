SPECIFICATION FairSpec
CONSTANTS Threads = {1, 2}
 Calls = 3
 Maxes = {0, 1, 2}
INVARIANTS Fifo StopFrees
PROPERTIES Bounded Released
CHECK_DEADLOCK FALSE
