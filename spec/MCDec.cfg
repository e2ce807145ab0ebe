SPECIFICATION Spec
INVARIANTS Faithful Truthful Window Counts
PROPERTIES EarlyIsHarmless ProbeIsIgnored Pays
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK TRUE
