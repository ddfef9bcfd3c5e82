SPECIFICATION Spec
CONSTANTS
  IDs = {1, 3, 5}
  Scores = {0, 2}
  Ties = {0}
  Times = {1}
  Steps = 3
  Batch = 1
  Starts = {2, 3}
  Maint = {"split", "reindex", "repair", "release"}
CHECK_DEADLOCK FALSE
