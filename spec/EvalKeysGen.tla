----------------------------- MODULE EvalKeysGen -----------------------------
(* Random histories of insertions, conversions and copies.                  *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLES prog, have, done
Depth == atoi(IOEnv.DEPTH)
Pick(S) == RandomElement(S)
Pairs == {"lvl01", "lvlh1", "lvl02", "lvlh2"}
Light == {"iksklvl10", "iksklvl1h", "iksklvl20", "iksklvl2h"}
Named == {"privksklvl11/a", "privksklvl11/b", "privksklvl11/privksk4cb_0"}
R(op, o, o2, slot, sk) == [op |-> op, obj |-> o, other |-> o2, slot |-> slot, sk |-> sk]
Objs == 0..1
(* have: pairs of object and level pair with a bootstrapping key            *)
Step ==
  LET w == Pick(1..14)  o == Pick(Objs)  o2 == Pick(Objs)  sk == Pick(0..1)
      p == Pick({"lvl01", "lvlh1", "lvl01", "lvlh1", Pick(Pairs)})
      c == IF have = {} THEN <<0, p>> ELSE Pick(have)
  IN  CASE w <= 3 -> R("emplace", o, o2, "bk" \o p, sk)
        [] w = 4 -> R("emplace", o, o2, Pick({"bkfft", "bkntt"}) \o p, sk)
        [] w <= 7 -> R("emplace", o, o2, Pick(Light), sk)
        [] w = 8 -> R("emplace", o, o2, Pick(Named), sk)
        [] w <= 11 -> IF have = {} THEN R("emplace", o, o2, "bk" \o p, sk)
                      ELSE R(Pick({"fft", "ntt"}), c[1], o2, c[2], sk)
        [] w = 12 -> R("share", o, o2, "-", sk)
        [] w = 13 -> R("emplace4cb", o, o2, "privksklvl11", sk)
        [] OTHER -> R("drop", o, o2, Pick(Light), sk)
Pair(s) == SubSeq(s, 3, Len(s))
Init == prog = <<>> /\ have = {} /\ done = FALSE
Next == \/ /\ Len(prog) < Depth
           /\ \E r \in {Step} :
                /\ prog' = Append(prog, r)
                /\ have' = CASE r.op = "emplace" /\ r.slot \in {"bk" \o p : p \in Pairs} -> have \cup {<<r.obj, Pair(r.slot)>>}
                             [] r.op = "share" -> {h \in have : h[1] # r.obj} \cup {<<r.obj, h[2]>> : h \in {g \in have : g[1] = r.other}}
                             [] OTHER -> have
           /\ UNCHANGED done
        \/ /\ Len(prog) = Depth /\ ~done /\ PrintT("PROG " \o ToJson(prog)) /\ done' = TRUE
           /\ UNCHANGED <<prog, have>>
Spec == Init /\ [][Next]_<<prog, have, done>>
=============================================================================
