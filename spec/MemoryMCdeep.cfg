SPECIFICATION Spec
CONSTANTS
  ABit = 4
  Val = {0, 1}
  NBit = 7
  WBit = 1
INVARIANTS ReadsLatest Agree
CHECK_DEADLOCK FALSE
