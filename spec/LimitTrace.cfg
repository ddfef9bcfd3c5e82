SPECIFICATION Spec
CONSTANT K <- TraceK
INVARIANT Good
CHECK_DEADLOCK FALSE
POSTCONDITION Accepted
