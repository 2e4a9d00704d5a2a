SPECIFICATION Spec
CONSTANTS Threads = {t1, t2} Regs = {r1, r2} Ops = {f} Words = 2 MaxOps = 2 KeySets = {k1} FLAW = "scratch"
INVARIANTS Same Untouched KeyConstant SharedConstant
CHECK_DEADLOCK FALSE
