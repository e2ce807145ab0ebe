SPECIFICATION Spec
INVARIANTS Commutes Associates Neutral Grows Ordered Monotone Distance FoldsOnce
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
