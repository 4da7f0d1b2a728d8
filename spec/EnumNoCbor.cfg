SPECIFICATION EnumSpec
CONSTANT HasCbor = FALSE
CHECK_DEADLOCK FALSE
