SPECIFICATION Spec
CONSTANTS IDs = {0, 1, 2} Scores = {0, 2} Ties = {0} Times = {1, 2} B = 3 MaxSegs = 3 MaxIdx = 3 Batch = 2
INVARIANTS Structure IsMap Queries
CHECK_DEADLOCK FALSE
