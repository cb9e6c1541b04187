SPECIFICATION Spec
CONSTANTS T = {1, 2}
 N = 2
 Calls = 3
INVARIANTS Once Older NoSelf Depth Moves
CHECK_DEADLOCK FALSE
