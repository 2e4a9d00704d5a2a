SPECIFICATION Spec
CONSTANTS Fields = {f1, f2, f3, f4} Values = {0, 1} Regs = {r1, r2, r3} Compared = {f1, f2, f3, f4} Archived = {f1, f2, f3, f4} MaxOps = 8
PROPERTIES EqExact RoundTrip
CHECK_DEADLOCK FALSE
