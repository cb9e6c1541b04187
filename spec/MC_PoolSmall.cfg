SPECIFICATION Spec
CONSTANTS
  Clients = {1, 2}
  Calls = 3
  Max = 1
  N = 1
  Prios <- TwoPrios
INVARIANTS Sound Kept Sorted
PROPERTIES Once NoTakeWhenStopped DelFinal
CHECK_DEADLOCK FALSE
