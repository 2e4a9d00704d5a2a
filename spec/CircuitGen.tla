----------------------------- MODULE CircuitGen -----------------------------
(* Random gate programs over the register file (4 registers per level);     *)
(* TLC's simulator walks this specification and prints each behaviour.      *)
EXTENDS Gates, Sequences, TLC, Json, IOUtils

VARIABLES prog, done
Depth == atoi(IOEnv.DEPTH)
Pick(S) == RandomElement(S)

Regs == 0..3
Combos(lv) == CASE lv = "lvl0" -> {"01_10", "02_20"}
                [] lv = "lvlhalf" -> {"h1_1h", "h2_2h"}
                [] lv = "lvl1" -> {"10_01", "1h_h1"}
                [] lv = "lvl2" -> {"20_02", "2h_h2"}
Rec(op, lv, combo, r, a, b, c) == [op |-> op, lv |-> lv, combo |-> combo, r |-> r, a |-> a, b |-> b, c |-> c]

(* one step of each kind; operands and result may coincide *)
Enc(lv) == [op |-> "ENC", lv |-> lv, combo |-> "-", r |-> Pick(Regs), a |-> Pick({0, 1}), b |-> Pick((-20)..20), c |-> 0]
Un(lv) == Rec(Pick({"NOT", "COPY", "ONE", "ZERO"}), lv, "-", Pick(Regs), Pick(Regs), 0, 0)
BinG(lv) == Rec(Pick(Bin), lv, Pick(Combos(lv)), Pick(Regs), Pick(Regs), Pick(Regs), 0)
MuxG(lv) == Rec(Pick({"MUX", "NMUX"}), Pick({"lvl0", "lvl1"}), "10_01", Pick(Regs), Pick(Regs), Pick(Regs), Pick(Regs))
RingMux(lv) ==
  CASE lv \in {"lvl0", "lvlhalf"} -> Rec(Pick({"MUXNOIKSSE", "MUXNOSE"}), lv, Pick(IF lv = "lvl0" THEN {"01", "02"} ELSE {"h1", "h2"}), Pick(Regs), Pick(Regs), Pick(Regs), Pick(Regs))
    [] lv = "lvl1" -> Rec(Pick({"IKSMUXNOSE", "EXTMUX"}), lv, Pick({"10_01", "1h_h1", "10_02", "1h_h2"}), Pick(Regs), Pick(Regs), Pick(Regs), Pick(Regs))
    [] lv = "lvl2" -> Rec("IKSMUXNOSE", lv, Pick({"20_02", "2h_h2", "20_01", "2h_h1"}), Pick(Regs), Pick(Regs), Pick(Regs), Pick(Regs))
Switch == Rec("SWITCH", "-", Pick({"10", "1h", "20", "2h", "21"}), Pick(Regs), Pick(Regs), 0, 0)

Step(lv, d) == CASE d <= 2 -> Enc(lv) [] d <= 4 -> Un(lv) [] d <= 13 -> BinG(lv) [] d <= 15 -> MuxG(lv)
                 [] d <= 18 -> RingMux(lv) [] OTHER -> Switch

Init == prog = <<>> /\ done = FALSE
Next == \/ Len(prog) < Depth /\ \E d \in {Pick(1..20)}, lv \in {Pick({"lvl0", "lvlhalf", "lvl1", "lvl2"}), Pick({"lvl0", "lvl1"})} :
                             prog' = Append(prog, Step(lv, d)) /\ UNCHANGED done
        \/ Len(prog) = Depth /\ ~done /\ PrintT("PROG " \o ToJson(prog)) /\ done' = TRUE /\ UNCHANGED prog
Spec == Init /\ [][Next]_<<prog, done>>
=============================================================================
