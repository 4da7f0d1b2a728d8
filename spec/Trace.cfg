SPECIFICATION TraceSpec
CONSTANT HasCbor = TRUE
CHECK_DEADLOCK FALSE
