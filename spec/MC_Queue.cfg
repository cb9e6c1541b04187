SPECIFICATION FairSpec
CONSTANTS Threads = {1, 2, 3}
 Calls = 2
 Maxes = {0, 1, 2}
INVARIANTS Fifo StopFrees
PROPERTIES Bounded Released
CHECK_DEADLOCK FALSE
