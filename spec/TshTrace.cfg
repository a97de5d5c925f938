SPECIFICATION Spec
INVARIANT WellFormed
PROPERTY FrameIsolation
CHECK_DEADLOCK FALSE
