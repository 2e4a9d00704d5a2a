SPECIFICATION Spec
CONSTANTS Q = 256 T = 2 Masks = {0, 1, 128, 255} E = 1 Bg = 4 L = 3
INVARIANTS Product Relin Decrypts
CHECK_DEADLOCK FALSE
