SPECIFICATION Spec
CONSTANTS Ws = {2, 3}
          Monts = {"m1", "m2", "m3"}
INVARIANTS Right Range_ RedcCanonical
CHECK_DEADLOCK FALSE
