SPECIFICATION Spec
CONSTANTS W = 14 BB = 3 ND = 4 E = 100
CONSTANT InNoise <- Unit
INVARIANTS Exact Decrypts Quarter
CHECK_DEADLOCK FALSE
