SPECIFICATION Spec
CONSTANTS
  QD = 16
  QT = 32
  n = 2
  t = 4
  bb = 1
  Balanced = TRUE
  Func = 1
INVARIANTS Preserved DigitRange
CHECK_DEADLOCK FALSE
