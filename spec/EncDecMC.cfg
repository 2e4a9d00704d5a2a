SPECIFICATION Spec
CONSTANTS
 W = 4
 N = 2
 PM = 4
 E = 1
 KeySet <- Ternary
INVARIANTS RoundTrip BitTrip PhaseNoise Nearest
CHECK_DEADLOCK FALSE
