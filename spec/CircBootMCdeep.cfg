SPECIFICATION Spec
CONSTANTS
  G = 64
  Q = 16
  Bg = 4
  L = 2
  N = 2
  V = 0
  A = {0, 1, 2, 3, 5, 7, 8, 9, 11, 13, 15}
INVARIANTS Gadget Selects
CHECK_DEADLOCK FALSE
