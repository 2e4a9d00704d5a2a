----------------------------- MODULE StreamsGen -----------------------------
(* Random histories of encryptions and key generations by threads that stay *)
(* (1..3), the main thread (0), new threads (4), and bursts in which all    *)
(* threads encrypt at once.                                                 *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLES prog, done
Depth == atoi(IOEnv.DEPTH)
Pick(S) == RandomElement(S)
Lvls == {"lvl0", "lvlhalf", "lvl1", "lvl2", "lvl3"}
Kinds == {"tlwe", "tlwe", "ring", "ringint", "gadget", "gadgetfft", "boots", "autokey", "zero", "relin", "half", "halffft"}
R(op, t, k, lv) == [op |-> op, thread |-> t, kind |-> k, lvl |-> lv]
Ring(k) == IF k = "relin" THEN "lvl1" ELSE Pick({"lvl1", "lvl2"})
One(op, t, k) == R(op, t, k, IF k \in {"tlwe", "boots"} THEN Pick(Lvls) ELSE Ring(k))
Step(n) == LET w == Pick(1..(8 + (n - n)))
        IN  IF w <= 6 THEN One("do", Pick(0..4), Pick(Kinds)) ELSE One("burst", Pick({2, 4, 8, 12}), Pick(Kinds))
Init == prog = <<>> /\ done = FALSE
Next == \/ /\ Len(prog) < Depth /\ \E r \in {Step(Len(prog))} : prog' = Append(prog, r)
           /\ UNCHANGED done
        \/ /\ Len(prog) = Depth /\ ~done /\ PrintT("PROG " \o ToJson(prog)) /\ done' = TRUE
           /\ UNCHANGED prog
Spec == Init /\ [][Next]_<<prog, done>>
=============================================================================
