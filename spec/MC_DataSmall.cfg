SPECIFICATION Spec
CONSTANTS MaxCalls = 4
  MaxHeld = 2
VIEW View
INVARIANTS NoDangling Counted NoGarbage Ordered
PROPERTIES Local Kept
CHECK_DEADLOCK FALSE
