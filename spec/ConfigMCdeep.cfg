SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS N = 4 Q = 7 Dim = 4 Variant = "bundle" Width = 14 Levels = 3 Base = 4
INVARIANTS Turned SmallDigits Close
