SPECIFICATION Spec
CONSTANTS
  IDs = {1, 2, 3, 4}
  Scores = {0, 2}
  Ties = {0, 2}
  Times = {1}
  Steps = 2
  Batch = 1
  Starts = {1, 2, 3, 5}
  Maint = {"ins", "split", "release"}
CHECK_DEADLOCK FALSE
