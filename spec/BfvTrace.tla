------------------------------- MODULE BfvTrace -------------------------------
(* C19.  Products of ciphertexts of integer polynomials computed by the real  *)
(* library at level 1.  reg holds, per register, the plaintext polynomial     *)
(* modulo the plaintext modulus as the specification computes it.             *)
EXTENDS TraceBase, Levels
VARIABLES key, sq, reg
vars == <<l, key, sq, reg>>
N == 1024
T == 8
With(f, k, v) == [n \in DOMAIN f \cup {k} |-> IF n = k THEN v ELSE f[n]]
Ix == [i \in 1..N |-> i]
(* coefficient j (0-based) of the negacyclic product of integer sequences     *)
CoefI(a, b, j) == FoldLeft(LAMBDA acc, i : IF a[i] = 0 THEN acc ELSE IF i - 1 <= j THEN acc + (a[i] * b[j - i + 2]) ELSE acc - (a[i] * b[N + j - i + 2]), 0, Ix)
Nonzero(a) == SelectSeq(Ix, LAMBDA i : a[i] # 0)
MulT(a, b) ==
  LET nz == Nonzero(a)
      at(j) == FoldLeft(LAMBDA acc, i : IF i - 1 <= j THEN acc + (a[i] * b[j - i + 2]) ELSE acc - (a[i] * b[N + j - i + 2]), 0, nz)
  IN  Tup([j \in 1..N |-> at(j - 1) % T], N)
(* the factor with fewer terms first                                         *)
MulTT(a, b) == IF Len(Nonzero(a)) <= Len(Nonzero(b)) THEN MulT(a, b) ELSE MulT(b, a)
(* T * Delta = 2^32: a plaintext is its top three bits                        *)
Enc(m) == <<0, (m % T) * 8192>>

Key == /\ Is("key") /\ key' = Ev.vals /\ sq' = Ev.sq
       /\ Chk("key length", Len(Ev.vals) = N)
       /\ (\A i \in 1..Len(Ev.pos) : Chk(<<"square of the key", Ev.pos[i]>>, CoefI(Ev.vals, Ev.vals, Ev.pos[i]) = Ev.sq[Ev.pos[i] + 1])) = TRUE
       /\ UNCHANGED reg
Close(what, ph, m, tol) ==
  /\ Chk(<<what, "length">>, Len(ph) = N)
  /\ (\A j \in 1..N : Chk(<<what, "coefficient", j - 1, "phase", ph[j], "plaintext", m[j]>>, Near(ph[j], Enc(m[j]), tol))) = TRUE
(* fresh                                                                     *)
Put == /\ Is("enc") /\ reg' = With(reg, Ev.dst, Ev.m)
       /\ Close(<<"encryption", Ev.kind>>, Ev.ph, Ev.m, OfNat(Ev.tol, 2))
       /\ UNCHANGED <<key, sq>>
Lin == /\ Is("lin")
       /\ \E a \in {reg[Ev.a]}, b \in {reg[Ev.b]} : \E m \in {Tup([j \in 1..N |-> IF Ev.op = "add" THEN (a[j] + b[j]) % T ELSE (a[j] - b[j]) % T], N)} :
            /\ Close(Ev.op, Ev.ph, m, OfNat(Ev.tol, 2)) /\ reg' = With(reg, Ev.dst, m)
       /\ UNCHANGED <<key, sq>>
Mult == /\ Is("mul")
        /\ \E m \in {MulTT(reg[Ev.a], reg[Ev.b])} :
             /\ Chk("operands unchanged", Ev.same)
             /\ Close(<<"product before relinearisation", Ev.a, Ev.b>>, Ev.ph3, m, OfNat(Ev.tol3, 2))
             /\ Close(<<"product", Ev.a, Ev.b>>, Ev.ph, m, OfNat(Ev.tol3 + Ev.tolr, 2))
             /\ (\A j \in 1..N : Chk(<<"relinearisation changes the phase at", j - 1>>, Near(Ev.ph[j], Ev.ph3[j], OfNat(Ev.tolr, 2)))) = TRUE
             /\ (\A j \in 1..N : Chk(<<"decryption of the product at", j - 1>>, Ev.dec[j] = m[j])) = TRUE
             /\ reg' = With(reg, Ev.dst, m)
        /\ UNCHANGED <<key, sq>>
(* where the phases come from                                                *)
Phase3 == /\ Is("phase3")
          /\ Chk(<<"phase of a three-part product", Ev.j>>,
                 Add(RingPhase(Ev.c0, Ev.c1, key, Ev.j, 32), Sub(Zero(2), RingPhase(Ev.c2, Zero(2), sq, Ev.j, 32))) = Ev.ph)
          /\ UNCHANGED <<key, sq, reg>>
Phase2 == /\ Is("phase2") /\ Chk(<<"phase", Ev.j>>, RingPhase(Ev.a, Ev.b, key, Ev.j, 32) = Ev.ph) /\ UNCHANGED <<key, sq, reg>>
(* single samples                                                            *)
Gap2 == OfNat(268435455, 2)
Single == /\ Is("single")
          /\ \E m \in {(Ev.x * Ev.y) % T} :
             \E ph \in {<<Ev.ph0, Ev.ph1, Ev.ph2>>} :
             \E good \in {{k \in 1..3 : Near(ph[k], Enc(m), Gap2)}} :
               /\ Chk(<<"products of samples", Ev.x, Ev.y, "phases", ph>>, Cardinality(good) >= 2)
               /\ Chk(<<"a product of samples far away", Ev.x, Ev.y, "phases", ph>>, \A k \in 1..3 : Near(ph[k], Enc(m), OfNat(450000000, 2)))
               /\ Chk(<<"phase of the sample">>, Phase(Ev.c, key, 32) = ph[1])
               /\ Chk(<<"decryption of the product of samples", Ev.x, Ev.y, Ev.dec0, Ev.dec1, Ev.dec2>>,
                      \A k \in good : <<Ev.dec0, Ev.dec1, Ev.dec2>>[k] = m)
               /\ Chk("operands unchanged", Ev.same)
          /\ UNCHANGED <<key, sq, reg>>
(* noise is bounded on average too: the sum of |error| over the run, in units  *)
(* of 2^10                                                                   *)
Mean == /\ Is("mean")
        /\ \E s \in {FoldLeft(LAMBDA a, x : a + AbsI(x), 0, Ev.err)} :
             /\ Chk(<<"mean error of", Ev.what, s \div Len(Ev.err)>>, s <= Ev.max * Len(Ev.err))
             /\ Chk(<<"no error at all", Ev.what>>, s > 0)
        /\ UNCHANGED <<key, sq, reg>>
Init == TraceInit /\ key = <<>> /\ sq = <<>> /\ reg = [c \in {} |-> <<>>]
Next == Key \/ Put \/ Lin \/ Mult \/ Phase3 \/ Phase2 \/ Single \/ Mean
Spec == Init /\ [][Next]_vars
=============================================================================
