SPECIFICATION Spec
CONSTANTS Objs = {o1, o2} Pairs = {p1, p2} Secrets = {s1, s2} MaxOps = 4
INVARIANTS HandsOut Typed Fresh
PROPERTIES Immutable OneSlot
CHECK_DEADLOCK FALSE
