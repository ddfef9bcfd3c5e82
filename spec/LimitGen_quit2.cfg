SPECIFICATION Spec
CONSTANTS K = 2 Steps = 14 NReq = 12 Quit = TRUE
INVARIANT Good
CHECK_DEADLOCK FALSE
