--------------------------- MODULE BlindRotModel ---------------------------
EXTENDS BlindRot
Ternary == {-1, 0, 1}
=============================================================================
