SPECIFICATION Spec
CONSTANTS
 W = 5
 N = 2
 PM = 4
 E = 3
 KeySet <- Ternary
INVARIANTS RoundTrip BitTrip PhaseNoise Nearest
CHECK_DEADLOCK FALSE
