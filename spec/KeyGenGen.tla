------------------------------ MODULE KeyGenGen ------------------------------
(* Random histories of generating, copying and looking up secret keys in     *)
(* threads that stay and threads that come and go.                           *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLES prog, made, done
Depth == atoi(IOEnv.DEPTH)
Pick(S) == RandomElement(S)
R(op, o, o2, t) == [op |-> op, obj |-> o, other |-> o2, thread |-> t]
Objs == 0..3
(* thread 0 is the main thread, 1..3 stay alive, 4 stands for a new one      *)
Step == LET w == Pick(1..10) o == Pick(Objs)
        IN  CASE w <= 6 \/ made = {} -> R("new", o, o, Pick(0..4))
              [] w <= 8 -> R("copy", o, Pick(made), Pick(0..4))
              [] w = 9 -> R("key", o, o, Pick(0..4))
              [] OTHER -> R("move", o, Pick(made), Pick(0..4))
Init == prog = <<>> /\ made = {} /\ done = FALSE
Next == \/ /\ Len(prog) < Depth
           /\ \E r \in {Step} :
                /\ prog' = Append(prog, r)
                /\ made' = (made \cup {r.obj})
           /\ UNCHANGED done
        \/ /\ Len(prog) = Depth /\ ~done /\ PrintT("PROG " \o ToJson(prog)) /\ done' = TRUE
           /\ UNCHANGED <<prog, made>>
Spec == Init /\ [][Next]_<<prog, made, done>>
=============================================================================
