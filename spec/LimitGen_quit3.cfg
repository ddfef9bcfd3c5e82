SPECIFICATION Spec
CONSTANTS K = 3 Steps = 16 NReq = 12 Quit = TRUE
INVARIANT Good
CHECK_DEADLOCK FALSE
