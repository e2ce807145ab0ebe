SPECIFICATION Spec
INVARIANTS Conserved
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
