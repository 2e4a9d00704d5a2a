SPECIFICATION Spec
CONSTANTS Threads = {t1, t2, t3} Regs = {r1} Ops = {f} Words = 1 MaxOps = 2 KeySets = {k1} FLAW = "none"
INVARIANTS Same Untouched KeyConstant SharedConstant
CHECK_DEADLOCK FALSE
