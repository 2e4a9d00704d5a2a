SPECIFICATION Spec
CONSTANTS Q = 1024 T = 4 Masks = {0, 1, 511, 1023} E = 1 Bg = 4 L = 4
INVARIANTS Product Relin Decrypts
CHECK_DEADLOCK FALSE
