SPECIFICATION Spec
CONSTANTS W = 8 BB = 1 ND = 5 E = 4
CONSTANT InNoise <- Unit
INVARIANTS Exact Decrypts Quarter
CHECK_DEADLOCK FALSE
