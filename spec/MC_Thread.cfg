SPECIFICATION Spec
CONSTANTS Bug = "none"
 Calls = 3
INVARIANTS Allowed NoneJoinable RealTime NoPriority
PROPERTIES Answers
CHECK_DEADLOCK FALSE
