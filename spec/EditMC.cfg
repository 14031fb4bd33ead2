SPECIFICATION Spec
CONSTRAINT Bounded
INVARIANT AlwaysSorted
PROPERTY Fifo
CHECK_DEADLOCK FALSE
