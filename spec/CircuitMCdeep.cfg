SPECIFICATION Spec
CONSTANTS
  M = 128
  Mu = 16
  E = 2
  K = 7
  R = 2
INVARIANTS Decrypts Bounded
CHECK_DEADLOCK FALSE
