SPECIFICATION GSpec
CONSTANTS
  Max = 3
  Errors = {"tmp", "wrapped", "unhash", "notfound", "toobig", "canceled", "P", "Q", "timeout"}
INVARIANTS Result NoMore Retried
PROPERTY Ends
CHECK_DEADLOCK FALSE
