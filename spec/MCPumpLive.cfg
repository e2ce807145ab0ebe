SPECIFICATION Live
INVARIANTS Conserved
PROPERTIES Arrives
CHECK_DEADLOCK FALSE
