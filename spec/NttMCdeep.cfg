SPECIFICATION Spec
CONSTANTS Prime = 241
          Psi = 30
          NBit = 2
          Coefs = {0, 1, 16, 120, 240}
INVARIANTS Values Convolves Inverts
CHECK_DEADLOCK FALSE
