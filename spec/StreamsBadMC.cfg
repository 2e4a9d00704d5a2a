SPECIFICATION Spec
CONSTANTS Threads = {t1, t2} Units = {u1, u2} Masks = 1 MaxEnc = 4 SHARED = TRUE
INVARIANTS Unique Complete
CHECK_DEADLOCK FALSE
