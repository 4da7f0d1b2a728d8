SPECIFICATION EnumSpec
CONSTANT HasCbor = TRUE
CHECK_DEADLOCK FALSE
