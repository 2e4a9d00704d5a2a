SPECIFICATION Spec
CONSTANTS Objs = {o1, o2} Arcs = {a1, a2} Comps = {"c1", "c2", "c3"} Tags = {t1, t2} MaxOps = 8
CONSTANT Written <- Order
INVARIANTS TornIsRefused Lossless SameResults Deterministic
CHECK_DEADLOCK FALSE
