SPECIFICATION Spec
CONSTANTS Bug = "silent"
 Calls = 3
INVARIANTS Allowed NoneJoinable RealTime NoPriority
PROPERTIES Answers
CHECK_DEADLOCK FALSE
