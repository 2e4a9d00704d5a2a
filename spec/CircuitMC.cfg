SPECIFICATION Spec
CONSTANTS
  M = 64
  Mu = 8
  E = 1
  K = 3
  R = 2
INVARIANTS Decrypts Bounded
CHECK_DEADLOCK FALSE
