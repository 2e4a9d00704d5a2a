------------------------------ MODULE ConfigGen ------------------------------
(* Random gate programs over four registers of level 0 and of level 1, for   *)
(* the builds with other options; printed for the driver.                    *)
EXTENDS Gates, Sequences, TLC, Json, IOUtils
VARIABLES prog, done
Depth == atoi(IOEnv.DEPTH)
Pick(S) == RandomElement(S)
Regs == 0..3
Rec(op, lv, r, a, b, c) == [op |-> op, lv |-> lv, r |-> r, a |-> a, b |-> b, c |-> c]
Step(lv, d) ==
  CASE d <= 2 -> Rec("ENC", lv, Pick(Regs), Pick({0, 1}), 0, 0)
    [] d <= 4 -> Rec(Pick({"NOT", "COPY", "ONE", "ZERO"}), lv, Pick(Regs), Pick(Regs), 0, 0)
    [] d <= 13 -> Rec(Pick(Bin), lv, Pick(Regs), Pick(Regs), Pick(Regs), 0)
    [] OTHER -> Rec(Pick({"MUX", "NMUX"}), lv, Pick(Regs), Pick(Regs), Pick(Regs), Pick(Regs))
Init == prog = <<>> /\ done = FALSE
Next == \/ Len(prog) < Depth /\ \E d \in {Pick(1..16)}, lv \in {Pick({"lvl0", "lvl1"})} :
                             prog' = Append(prog, Step(lv, d)) /\ UNCHANGED done
        \/ Len(prog) = Depth /\ ~done /\ PrintT("PROG " \o ToJson(prog)) /\ done' = TRUE /\ UNCHANGED prog
Spec == Init /\ [][Next]_<<prog, done>>
=============================================================================
