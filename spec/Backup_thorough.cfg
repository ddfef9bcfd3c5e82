SPECIFICATION Spec
CONSTANTS N = 4 A = 4
INVARIANTS Truthful Partition Reported Reasons Single
CHECK_DEADLOCK FALSE
