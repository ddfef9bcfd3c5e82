SPECIFICATION GSpec
CONSTANTS NK = 2 Procs = {1, 2, 3} MaxItems = 2 Flush = 1 Savers = 2 MaxOps = 30 Fail = TRUE
 Ordered = TRUE AckWait = TRUE Recheck = TRUE UseShutdown = TRUE Observe = TRUE Steps = 160
INVARIANT Explained
CHECK_DEADLOCK FALSE
