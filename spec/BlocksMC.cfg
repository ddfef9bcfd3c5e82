SPECIFICATION Spec
CONSTANTS N = 4
 Slots = {0, 1}
 Upds = {1, 2}
INVARIANT Same
CHECK_DEADLOCK FALSE
