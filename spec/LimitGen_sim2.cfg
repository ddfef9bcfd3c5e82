SPECIFICATION Spec
CONSTANTS K = 2 Steps = 24 NReq = 12 Quit = FALSE
INVARIANT Good
CHECK_DEADLOCK FALSE
