SPECIFICATION Spec
CONSTANTS K = 0 Steps = 20 NReq = 12 Quit = FALSE
INVARIANT Good
CHECK_DEADLOCK FALSE
