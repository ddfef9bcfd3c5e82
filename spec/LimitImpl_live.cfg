SPECIFICATION Spec
CONSTANTS K = 1 Rq = {1, 2, 3} Upd = {1, 2} Deferred = TRUE Notice = TRUE
INVARIANTS Tokens Quiet Bounds
PROPERTIES Refines Answered LeftRefused Prompt
CHECK_DEADLOCK FALSE
