SPECIFICATION TSpecM
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE
