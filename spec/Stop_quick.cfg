SPECIFICATION Spec
CONSTANTS Requests = {1, 2}
  Await = TRUE SaveAfter = TRUE LazyFirst = TRUE Lazy = TRUE
INVARIANTS TypeOK Kept NoMore OneRegistry
PROPERTY Ends
CHECK_DEADLOCK FALSE
