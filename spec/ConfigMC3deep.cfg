SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS N = 8 Q = 9 Dim = 3 Variant = "cmux" Width = 12 Levels = 5 Base = 2
INVARIANTS Turned SmallDigits Close
