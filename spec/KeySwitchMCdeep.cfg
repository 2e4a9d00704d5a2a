SPECIFICATION Spec
CONSTANTS
  QD = 64
  QT = 16
  n = 2
  t = 2
  bb = 2
  Balanced = TRUE
  Func = 1
INVARIANTS Preserved DigitRange
CHECK_DEADLOCK FALSE
