SPECIFICATION Spec
CONSTANTS K = 2 Steps = 7 NReq = 4 Quit = FALSE
INVARIANT Good
CHECK_DEADLOCK FALSE
