SPECIFICATION TraceSpec
CONSTANT HasCbor = FALSE
CHECK_DEADLOCK FALSE
