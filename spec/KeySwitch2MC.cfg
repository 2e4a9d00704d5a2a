SPECIFICATION Spec
CONSTANTS
  QD = 32
  QT = 32
  n = 1
  t = 2
  bb = 2
  Balanced = FALSE
  Func = 3
INVARIANTS Preserved DigitRange
CHECK_DEADLOCK FALSE
