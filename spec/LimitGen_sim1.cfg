SPECIFICATION Spec
CONSTANTS K = 1 Steps = 16 NReq = 9 Quit = FALSE
INVARIANT Good
CHECK_DEADLOCK FALSE
