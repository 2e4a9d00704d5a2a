SPECIFICATION Spec
CONSTANTS N = 4 LogN = 2 Q = 64 InMasks = {0,63} KsMasks = {1,40}
 Phases = {0,31} Up = TRUE Mode = "annihilate"
CONSTANT Keys <- Ternary
INVARIANTS Annihilated Packed
CHECK_DEADLOCK FALSE
