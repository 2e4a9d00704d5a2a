SPECIFICATION Spec
CONSTANTS
  Q = 16
  N = 2
  L = 1
  LogBg = 2
  Vals <- VQuick
  Noise <- NoiseSet
  Msgs <- MsgSet
INVARIANTS Product Select
CHECK_DEADLOCK FALSE
