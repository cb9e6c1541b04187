SPECIFICATION Spec
CONSTANTS
  T = {0, 1}
  N = 2
  Levels = {0, 1, 2}
  Ctl = 0
  Ops = 3
  Logs = 2
INVARIANTS Level Once Silent Refs NoEarly Whole
CHECK_DEADLOCK FALSE
