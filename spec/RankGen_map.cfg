SPECIFICATION Spec
CONSTANTS
  IDs = {1, 2, 3}
  Scores = {0, 2}
  Ties = {0}
  Times = {1}
  Steps = 4
  Batch = 1
  Starts = {1, 2, 4}
  Maint = {"split"}
CHECK_DEADLOCK FALSE
