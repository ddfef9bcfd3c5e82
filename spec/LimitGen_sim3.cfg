SPECIFICATION Spec
CONSTANTS K = 3 Steps = 30 NReq = 16 Quit = FALSE
INVARIANT Good
CHECK_DEADLOCK FALSE
