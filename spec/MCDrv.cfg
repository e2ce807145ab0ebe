SPECIFICATION Spec
INVARIANTS Exactly Returns
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
