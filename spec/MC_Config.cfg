SPECIFICATION Spec
CONSTANT Max = 6
INVARIANTS Plain OneByOne NoShort
CHECK_DEADLOCK FALSE
