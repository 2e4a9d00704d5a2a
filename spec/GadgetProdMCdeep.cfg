SPECIFICATION Spec
CONSTANTS
  Q = 64
  N = 2
  L = 2
  LogBg = 2
  Vals <- V1
  Noise <- NoiseSet
  Msgs <- MsgSet
INVARIANTS Product Select
CHECK_DEADLOCK FALSE
