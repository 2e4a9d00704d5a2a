SPECIFICATION Spec
CONSTANTS
  Q = 16
  n = 3
  N = 4
  Outs = 1
  Keys <- Ternary
INVARIANTS Rotation Rounding Lookup
CHECK_DEADLOCK FALSE
