SPECIFICATION TSpec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
CONSTANT Period8 <- Known
