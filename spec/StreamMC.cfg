SPECIFICATION Spec
INVARIANTS Clock TrueTimes NoBlindDecoding Once Complete Tiling Emit
CHECK_DEADLOCK FALSE
