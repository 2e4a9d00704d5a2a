SPECIFICATION Spec
CONSTANTS Prime = 17
          Psi = 3
          NBit = 3
          Coefs = {0, 16}
INVARIANTS Values Convolves Inverts
CHECK_DEADLOCK FALSE
