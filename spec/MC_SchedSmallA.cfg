SPECIFICATION Spec
CONSTANTS
  Slack = 0
  Clients = {1}
  Calls = 3
  N = 1
  M = 1
  Horizon = 4
  Kinds <- KindsA
INVARIANTS NoOverlap NeverEarly RepeatBound FreedSafe InFlight AllDone
PROPERTIES FreedOnce NoTriggerWhenStopped DelFinal
CHECK_DEADLOCK FALSE
