SPECIFICATION Spec
CONSTANTS Objs = {o1, o2} Arcs = {a1, a2} Comps = {"c1", "c2"} Tags = {t1, t2} MaxOps = 7
CONSTANT Written <- Order2
INVARIANTS TornIsRefused Lossless SameResults Deterministic
CHECK_DEADLOCK FALSE
