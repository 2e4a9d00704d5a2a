SPECIFICATION Spec
CONSTANTS
  ABit = 2
  Val = {0, 1, 2, 3}
  NBit = 4
  WBit = 4
INVARIANTS ReadsLatest Agree
CHECK_DEADLOCK FALSE
