SPECIFICATION TraceSpec
POSTCONDITION TraceAccepted
INVARIANT SysOK
CHECK_DEADLOCK FALSE
