SPECIFICATION TraceSpec
POSTCONDITION TraceAccepted
INVARIANT PartsOK
CHECK_DEADLOCK FALSE
