SPECIFICATION Spec
INVARIANTS Interval Lossless BlockLossless Emit
CHECK_DEADLOCK FALSE
