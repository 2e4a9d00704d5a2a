----------------------------- MODULE ArchiveGen -----------------------------
(* Random histories of evaluation keys, secret keys and packets moving       *)
(* through archives.                                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

VARIABLES prog, kind, pool, saved, done
Depth == atoi(IOEnv.DEPTH)
Pick(S) == RandomElement(S)

KeySlots == {"bklvl01", "bklvlh1", "bklvl02", "bklvlh2", "bkfftlvl01", "bkfftlvlh1", "bkfftlvl02", "bkfftlvlh2",
             "bknttlvl01", "bknttlvlh1", "bknttlvl02", "bknttlvlh2",
             "iksklvl10", "iksklvl1h", "iksklvl20", "iksklvl2h", "iksklvl21", "subiksklvl21",
             "privksklvl11/a", "privksklvl21/a", "privksklvl21/b", "subprivksklvl21/a", "subprivksklvl21/b"}
Heavy == {"privksklvl11/a", "privksklvl21/a", "privksklvl21/b", "subprivksklvl21/a", "subprivksklvl21/b", "iksklvl21", "subiksklvl21"}
PacketSlots == {t \o n : t \in {"tlwelvl0/", "tlwelvl1/", "trlwelvl2/", "trgswlvl2/"}, n \in {"a", "b", "in+out"}}
ThreeOf(S) == LET x == Pick(S)  y == Pick(S)  z == Pick(S) IN {x, y, z}
Pool(k) == IF k = "key" THEN {Pick(Heavy)} \cup ThreeOf(KeySlots \ Heavy) ELSE PacketSlots

Step ==
  LET w == Pick(1..12)
      o == Pick(0..2)  o2 == Pick(0..2)  a == Pick(0..2)
      c == Pick(pool)
      R(op, x) == [op |-> op, obj |-> o, other |-> o2, arc |-> a, slot |-> c, tag |-> x, kind |-> kind]
  IN  CASE w <= 4 -> R("put", Pick(1..1000))
        [] w = 5 -> R("drop", 0)
        [] w = 6 -> R("copy", 0)
        [] w = 7 -> R("params", Pick(1..1000))
        [] w <= 9 -> R("save", Pick(0..1))
        [] OTHER -> R(IF saved = {} THEN "save" ELSE "load", Pick(0..1))

Init == prog = <<>> /\ kind \in {"key", "packet"} /\ pool = {} /\ saved = {} /\ done = FALSE
Next == \/ /\ pool = {} /\ \E p \in {Pool(kind)} : pool' = p
           /\ UNCHANGED <<prog, kind, saved, done>>
        \/ /\ pool # {} /\ Len(prog) < Depth
           /\ \E r \in {Step} :
                LET arc == IF r.op = "load" /\ r.arc \notin saved THEN Pick(saved) ELSE r.arc
                IN  /\ prog' = Append(prog, [r EXCEPT !.arc = arc])
                    /\ saved' = IF r.op = "save" THEN saved \cup {arc} ELSE saved
           /\ UNCHANGED <<kind, pool, done>>
        \/ /\ Len(prog) = Depth /\ ~done /\ PrintT("PROG " \o ToJson(prog)) /\ done' = TRUE
           /\ UNCHANGED <<prog, kind, pool, saved>>
Spec == Init /\ [][Next]_<<prog, kind, pool, saved, done>>
=============================================================================
