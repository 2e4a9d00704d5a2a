SPECIFICATION Spec
CONSTANTS N = 2 LogN = 1 Q = 16 InMasks = {0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15} KsMasks = {0,3,15}
 Phases = {0,5,8,15} Up = TRUE Mode = "annihilate"
CONSTANT Keys <- Ternary
INVARIANTS Annihilated Packed
CHECK_DEADLOCK FALSE
