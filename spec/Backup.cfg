SPECIFICATION Spec
CONSTANTS N = 3 A = 3
INVARIANTS Truthful Partition Reported Reasons Single
PROPERTIES Ends
CHECK_DEADLOCK FALSE
