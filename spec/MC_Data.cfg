SPECIFICATION Spec
CONSTANTS MaxCalls = 6
  MaxHeld = 2
VIEW View
INVARIANTS NoDangling Counted NoGarbage Ordered
PROPERTIES Local Kept
CHECK_DEADLOCK FALSE
