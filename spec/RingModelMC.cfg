SPECIFICATION Spec
CONSTANTS N = 2 Q = 4 MaxOps = 2
INVARIANTS Accumulates FullTurn Product Automorphism Extraction
CHECK_DEADLOCK FALSE
