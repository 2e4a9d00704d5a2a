SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS N = 4 Q = 7 Dim = 2 Variant = "bundle" Width = 9 Levels = 2 Base = 3
INVARIANTS Turned SmallDigits Close
