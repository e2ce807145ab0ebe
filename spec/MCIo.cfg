SPECIFICATION Spec
INVARIANTS ReadOrder WriteOrder Reports NoLostWakeUp
PROPERTIES LastRead LastWrite Failures Pending Woken
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
