SPECIFICATION Spec
INVARIANTS Restored Complete
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
