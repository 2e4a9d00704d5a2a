SPECIFICATION Spec
CONSTANTS N = 4 Q = 2 MaxOps = 1
INVARIANTS Accumulates FullTurn Product Automorphism Extraction
CHECK_DEADLOCK FALSE
