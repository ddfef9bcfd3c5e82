SPECIFICATION Spec
CONSTANTS NK = 1 Procs = {1, 2} MaxItems = 1 Flush = 1 Savers = 2 MaxOps = 2 Fail = TRUE
 Ordered = TRUE AckWait = TRUE Recheck = TRUE UseShutdown = TRUE Observe = TRUE
INVARIANTS Explained TypeOK
VIEW SeenView
CHECK_DEADLOCK FALSE
