SPECIFICATION Spec
CONSTANTS K = 1 Steps = 7 NReq = 4 Quit = FALSE
INVARIANT Good
CHECK_DEADLOCK FALSE
