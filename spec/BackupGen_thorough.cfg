SPECIFICATION GSpec
CONSTANTS N = 3 A = 3
INVARIANTS Truthful Partition Reported Reasons Single
CHECK_DEADLOCK FALSE
