SPECIFICATION Spec
CONSTANTS
  G = 16
  Q = 16
  Bg = 4
  L = 2
  N = 2
  V = 0
  A = {0, 1, 5, 8, 15}
INVARIANTS Gadget Selects
CHECK_DEADLOCK FALSE
