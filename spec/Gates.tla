------------------------------- MODULE Gates -------------------------------
(***************************************************************************)
(* The Boolean API: truth tables, and the linear form each bootstrapped     *)
(* gate evaluates before the sign bootstrapping.  A bit is +-mu; a gate     *)
(* with form <<ca, cb, off>> bootstraps ca*a + cb*b + off*mu.               *)
(***************************************************************************)
EXTENDS Integers

NotB(x) == 1 - x
AndB(x, y) == x * y
OrB(x, y) == NotB(AndB(NotB(x), NotB(y)))
XorB(x, y) == IF x = y THEN 0 ELSE 1

Bin == {"NAND", "NOR", "XNOR", "AND", "OR", "XOR", "ANDNY", "ANDYN", "ORNY", "ORYN"}
Truth(g, x, y) ==
  CASE g = "NAND" -> NotB(AndB(x, y))
    [] g = "NOR" -> NotB(OrB(x, y))
    [] g = "XNOR" -> NotB(XorB(x, y))
    [] g = "AND" -> AndB(x, y)
    [] g = "OR" -> OrB(x, y)
    [] g = "XOR" -> XorB(x, y)
    [] g = "ANDNY" -> AndB(NotB(x), y)
    [] g = "ANDYN" -> AndB(x, NotB(y))
    [] g = "ORNY" -> OrB(NotB(x), y)
    [] g = "ORYN" -> OrB(x, NotB(y))

Form(g) ==
  CASE g = "NAND" -> <<-1, -1, 1>>
    [] g = "NOR" -> <<-1, -1, -1>>
    [] g = "XNOR" -> <<-2, -2, -2>>
    [] g = "AND" -> <<1, 1, -1>>
    [] g = "OR" -> <<1, 1, 1>>
    [] g = "XOR" -> <<2, 2, 2>>
    [] g = "ANDNY" -> <<-1, 1, -1>>
    [] g = "ANDYN" -> <<1, -1, -1>>
    [] g = "ORNY" -> <<-1, 1, 1>>
    [] g = "ORYN" -> <<1, -1, 1>>

Mux(s, x, y) == IF s = 1 THEN x ELSE y
=============================================================================
