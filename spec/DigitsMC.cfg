SPECIFICATION Spec
CONSTANTS W = 9 BB = 2 ND = 3 E = 4
CONSTANT InNoise <- Unit
INVARIANTS Exact Decrypts Quarter
CHECK_DEADLOCK FALSE
