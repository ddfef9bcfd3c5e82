SPECIFICATION Spec
CONSTANTS NK = 2 Procs = {1, 2} MaxItems = 1 Flush = 1 Savers = 2 MaxOps = 3 Fail = FALSE
 Ordered = TRUE AckWait = TRUE Recheck = TRUE UseShutdown = TRUE Observe = TRUE
INVARIANTS Explained TypeOK
VIEW SeenView
CHECK_DEADLOCK FALSE
