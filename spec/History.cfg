SPECIFICATION HSpec
CONSTANT HasCbor = TRUE
INVARIANTS Answer Steady Kinds
CHECK_DEADLOCK FALSE
