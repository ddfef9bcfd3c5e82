SPECIFICATION Spec
CONSTANTS
  IDs = {1, 2, 3, 4}
  Scores = {0, 1, 2}
  Ties = {0, 2}
  Times = {1}
  Steps = 1
  Batch = 2
  Starts = {1, 2, 3, 4, 5}
  Maint = {}
CHECK_DEADLOCK FALSE
