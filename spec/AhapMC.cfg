SPECIFICATION Spec
INVARIANT Bounded
CONSTANTS MaxPts = 3 MaxT = 4 Emit = TRUE
CHECK_DEADLOCK FALSE
