SPECIFICATION Spec
INVARIANTS Restored
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
