SPECIFICATION TraceSpec
CONSTANT Tol = "1/1000000000"
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
