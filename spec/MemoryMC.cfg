SPECIFICATION Spec
CONSTANTS
  ABit = 3
  Val = {0, 1}
  NBit = 4
  WBit = 3
INVARIANTS ReadsLatest Agree
CHECK_DEADLOCK FALSE
