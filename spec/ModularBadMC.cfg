SPECIFICATION Spec
CONSTANTS Ws = {2}
          Monts = {"m5"}
INVARIANTS Right Range_ RedcCanonical
CHECK_DEADLOCK FALSE
