SPECIFICATION Spec
CONSTANTS K = 2 Steps = 6 NReq = 4 Quit = FALSE
INVARIANT Good
CHECK_DEADLOCK FALSE
