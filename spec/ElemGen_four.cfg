SPECIFICATION GSpec
CONSTANTS
  Scores = {0, 1, 2}
  Ties = {0}
  Times = {0, 1}
  IDs = {0, 1}
  MaxLen = 4
INVARIANTS OneOrder OneBest
CHECK_DEADLOCK FALSE
