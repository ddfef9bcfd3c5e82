SPECIFICATION Spec
CONSTANTS M = 5 V = 4 F = 4
INVARIANTS Content NoLeftovers
CHECK_DEADLOCK FALSE
