SPECIFICATION Spec
CONSTANTS
  Q = 16
  n = 2
  N = 4
  Outs = 1
  Keys = {0, 1}
INVARIANTS Rotation Rounding Lookup
CHECK_DEADLOCK FALSE
