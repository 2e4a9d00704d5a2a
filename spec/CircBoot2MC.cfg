SPECIFICATION Spec
CONSTANTS
  G = 16
  Q = 512
  Bg = 8
  L = 3
  N = 2
  V = 1
  A = {0, 77, 511}
INVARIANTS Gadget Selects
CHECK_DEADLOCK FALSE
