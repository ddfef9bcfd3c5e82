SPECIFICATION Spec
CONSTANTS K = 2 Rq = {1, 2, 3, 4} Upd = {1, 2, 3} Deferred = TRUE Notice = TRUE
INVARIANTS Tokens Quiet Bounds
PROPERTIES Refines
CHECK_DEADLOCK FALSE
