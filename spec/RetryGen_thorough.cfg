SPECIFICATION GSpec
CONSTANTS
  Max = 4
  Errors = {"tmp", "wrapped", "unhash", "notfound", "toobig", "canceled", "P", "Q", "timeout"}
INVARIANTS Result NoMore Retried
PROPERTY Ends
CHECK_DEADLOCK FALSE
