SPECIFICATION Spec
CONSTRAINT Bounded
INVARIANTS Honest OneTarget Loads Readable
CHECK_DEADLOCK FALSE
