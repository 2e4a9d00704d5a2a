SPECIFICATION Spec
CONSTANTS
  Q = 32
  n = 2
  N = 8
  Outs = 2
  Keys = {0, 1}
INVARIANTS Rotation Rounding Lookup
CHECK_DEADLOCK FALSE
