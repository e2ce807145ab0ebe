SPECIFICATION Spec
INVARIANTS Faithful Growing Truthful Ready Window
PROPERTIES RefusalIsHarmless ProbeIsIgnored Pays
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK TRUE
