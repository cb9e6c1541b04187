SPECIFICATION Spec
CONSTANTS
  Clients = {1, 2}
  Calls = 4
  Max = 2
  N = 2
  Prios <- TwoPrios
INVARIANTS Sound Kept Sorted
PROPERTIES Once NoTakeWhenStopped DelFinal
CHECK_DEADLOCK FALSE
