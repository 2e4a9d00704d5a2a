SPECIFICATION Spec
CONSTANTS N = 4 LogN = 2 Q = 64 InMasks = {0,63} KsMasks = {40}
 Phases = {0,31} Mode = "pack" Up = TRUE
CONSTANT Keys <- Bit
INVARIANTS Annihilated Packed
CHECK_DEADLOCK FALSE
