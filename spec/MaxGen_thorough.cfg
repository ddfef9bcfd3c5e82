SPECIFICATION GSpec
CONSTANTS M = 3 V = 9 F = 1 Steps = 5
INVARIANTS Content NoLeftovers
CHECK_DEADLOCK FALSE
