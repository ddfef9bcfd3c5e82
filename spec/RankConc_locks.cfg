SPECIFICATION Spec
CONSTANTS Ids = {1, 2} Vals = {1, 2} Procs = {1, 2, 3} MaxOps = 3 InitIds = {1} Retry = TRUE FreeNeighbours = TRUE OneRead = TRUE SnapLock = TRUE Observe = FALSE
 Ops = {"upd", "del", "get", "split", "release"}
 Base = 4 SLimbs <- L1 TLimbs <- L1 ILimbs <- L1 NS = 1 NT = 1
INVARIANTS Explained LocksFree Consistent
VIEW SeenView
