SPECIFICATION LiveSpec
CONSTANTS NK = 1 Procs = {1, 2} MaxItems = 1 Flush = 1 Savers = 1 MaxOps = 3 Fail = TRUE
 Ordered = TRUE AckWait = TRUE Recheck = TRUE UseShutdown = TRUE Observe = FALSE
PROPERTIES Proceeds EventuallyEmpty ShutsDown
CHECK_DEADLOCK FALSE
