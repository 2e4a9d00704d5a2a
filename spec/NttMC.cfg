SPECIFICATION Spec
CONSTANTS Prime = 17
          Psi = 9
          NBit = 2
          Coefs = {0, 1, 16}
INVARIANTS Values Convolves Inverts
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
