SPECIFICATION Spec
INVARIANT ClosedForm
CONSTANTS MaxT = 4 MaxR = 3 MaxN = 2
CHECK_DEADLOCK FALSE
