SPECIFICATION Spec
CONSTANTS Fields = {f1, f2, f3} Values = {0, 1} Regs = {r1, r2} Compared = {f1, f2, f3} Archived = {f1, f2, f3} MaxOps = 6
PROPERTIES EqExact RoundTrip
CHECK_DEADLOCK FALSE
