SPECIFICATION Spec
CONSTANTS Threads = {t1, t2} Objs = {o1, o2} Levels = {"bin", "ter"} MaxOps = 4
INVARIANTS InRange Apart Unrelated
CHECK_DEADLOCK FALSE
