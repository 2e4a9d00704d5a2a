-------------------------------- MODULE BfvGen --------------------------------
(* Random programs over ring ciphertexts of integer polynomials: encryptions *)
(* of polynomials of several shapes, sums, differences, products of          *)
(* registers that are not products yet, in place or not.                    *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLES prog, depth, done
Depth == atoi(IOEnv.DEPTH)
Pick(S) == RandomElement(S)
Regs == 0..3
R(op, d, a, b, k) == [op |-> op, dst |-> d, a |-> a, b |-> b, kind |-> k]
Kinds == {"dense", "dense", "constant", "monomial", "top", "sparse", "zero", "ones"}
Ops(f) == {r \in Regs : f[r] = 0}
Step(f) ==
  LET w == Pick(1..10) d == Pick(Regs) a == Pick(Regs) b == Pick(Regs) z == Ops(f)
  IN  IF w <= 3 \/ z = {} THEN R("enc", d, 0, 0, Pick(Kinds))
      ELSE IF w <= 7 THEN R("mul", d, Pick(z), Pick(z), "-")
      ELSE IF f[a] + f[b] < 2 THEN R(Pick({"add", "sub"}), d, a, b, "-") ELSE R("enc", d, 0, 0, Pick(Kinds))
Init == prog = <<>> /\ depth = [r \in Regs |-> 0] /\ done = FALSE
Next == \/ /\ Len(prog) < Depth
           /\ \E r \in {Step(depth)} :
                /\ prog' = Append(prog, r)
                /\ depth' = [depth EXCEPT ![r.dst] = CASE r.op = "enc" -> 0 [] r.op = "mul" -> 1 [] OTHER -> IF depth[r.a] > depth[r.b] THEN depth[r.a] ELSE depth[r.b]]
           /\ UNCHANGED done
        \/ /\ Len(prog) = Depth /\ ~done /\ PrintT("PROG " \o ToJson(prog)) /\ done' = TRUE
           /\ UNCHANGED <<prog, depth>>
Spec == Init /\ [][Next]_<<prog, depth, done>>
=============================================================================
