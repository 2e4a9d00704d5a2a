------------------------------ MODULE MemoryGen ------------------------------
(* Random access histories.  Each program fixes a memory (kind, level,       *)
(* address width) and then reads and writes it; addresses repeat often so    *)
(* that values are overwritten and read back, neighbours included.           *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

VARIABLES prog, kind, last, done
Depth == atoi(IOEnv.DEPTH)
Pick(S) == RandomElement(S)

Ram(v, b) == [k |-> "ram", lvl |-> v, abit |-> b, wbit |-> 0]
Rom(v, b, w) == [k |-> "rom", lvl |-> v, abit |-> b, wbit |-> w]
Full(b) == [k |-> "full", lvl |-> 1, abit |-> b, wbit |-> 0]
Kinds == { Ram(1, 2), Ram(1, 3), Ram(1, 4), Ram(1, 6), Ram(2, 2), Ram(2, 3),
           Rom(1, 4, 1), Rom(1, 4, 2), Rom(1, 6, 1), Rom(1, 10, 3), Rom(1, 8, 6), Rom(1, 9, 5), Rom(1, 12, 10), Rom(2, 5, 3), Rom(2, 13, 11),
           Full(2), Full(3) }
Ops(kd) == IF kd.k = "ram" THEN {"read", "write", "twice"} ELSE IF kd.k = "rom" THEN {"rom"} ELSE {"set", "set", "keep"}
Flip(a, i) == IF (a \div 2 ^ i) % 2 = 1 THEN a - 2 ^ i ELSE a + 2 ^ i
Address(kd) == CASE Pick(1..4) = 1 -> last
                 [] Pick(1..3) = 1 -> Flip(last, Pick(0..(kd.abit - 1)))
                 [] OTHER -> Pick(0..(2 ^ kd.abit - 1))
Init == /\ prog = <<>> /\ kind \in Kinds /\ last = 0 /\ done = FALSE
Next == \/ /\ Len(prog) < Depth
           /\ \E a \in {Address(kind)}, w \in {Pick(Ops(kind))} :
                /\ prog' = Append(prog, [op |-> IF w = "twice" THEN "write" ELSE w, mem |-> kind.k, lvl |-> kind.lvl, abit |-> kind.abit, wbit |-> kind.wbit, addr |-> a, val |-> Pick(0..3)])
                /\ last' = a
           /\ UNCHANGED <<kind, done>>
        \/ /\ Len(prog) = Depth /\ ~done /\ PrintT("PROG " \o ToJson(prog)) /\ done' = TRUE
           /\ UNCHANGED <<prog, kind, last>>
Spec == Init /\ [][Next]_<<prog, kind, last, done>>
=============================================================================
