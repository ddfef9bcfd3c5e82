SPECIFICATION Spec
CONSTANTS M = 4 V = 3 F = 2
INVARIANTS Content NoLeftovers
CHECK_DEADLOCK FALSE
