SPECIFICATION Spec
PROPERTIES InBounds EarlyIsHarmless Waiting Needs Pays Limited Window Fits Refuses Exact Fills Ends
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
