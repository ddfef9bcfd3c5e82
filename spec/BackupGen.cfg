SPECIFICATION GSpec
CONSTANTS N = 3 A = 2
INVARIANTS Truthful Partition Reported Reasons Single
CHECK_DEADLOCK FALSE
