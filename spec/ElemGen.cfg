SPECIFICATION GSpec
CONSTANTS
  Scores = {0, 1}
  Ties = {0, 1}
  Times = {0, 1}
  IDs = {0, 1, 2}
  MaxLen = 3
INVARIANTS OneOrder OneBest
CHECK_DEADLOCK FALSE
