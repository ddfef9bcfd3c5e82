SPECIFICATION Spec
CONSTANTS K = 1 Steps = 10 NReq = 9 Quit = TRUE
INVARIANT Good
CHECK_DEADLOCK FALSE
