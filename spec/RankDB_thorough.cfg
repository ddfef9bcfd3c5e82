SPECIFICATION Spec
CONSTANTS IDs = {0, 1, 2} Scores = {0, 1, 2} Ties = {0, 2} Times = {1} B = 3 MaxSegs = 3 MaxIdx = 2 Batch = 1
INVARIANTS Structure IsMap Queries
CHECK_DEADLOCK FALSE
