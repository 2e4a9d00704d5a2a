SPECIFICATION Spec
CONSTANTS
  QD = 64
  QT = 32
  n = 2
  t = 5
  bb = 1
  Balanced = FALSE
  Func = 2
INVARIANTS Preserved DigitRange
CHECK_DEADLOCK FALSE
