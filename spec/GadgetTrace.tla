---------------------------- MODULE GadgetTrace ----------------------------
(* C05.  The library's decompositions, word by word, against the relation   *)
(* model-checked in Gadget.tla, at the library's real parameters.           *)
EXTENDS TraceBase, Words

(* {ev:"dec", w, l, bgbit, v:[word], d:[[digit]]}; digits most significant first *)
Recomposed(ds, bgbit, w) ==
  SumSeq([i \in 1..Len(ds) |-> LET s == w - (i * bgbit)
                                   m == OfInt(ds[i], w \div 16)
                               IN  Shl(m, s)], w \div 16)

DigitsOk(ds, n, bgbit) ==
  /\ Len(ds) = n
  /\ \A i \in 1..n : -(2 ^ (bgbit - 1)) <= ds[i] /\ ds[i] <= 2 ^ (bgbit - 1)

Decomposed ==
  /\ Is("dec")
  /\ LET w == Ev.w  n == Ev.l  g == Ev.bgbit
         tol == Pow2(w - (n * g) - 1, w \div 16)
     IN  /\ Chk("one digit vector per word", Len(Ev.v) = Len(Ev.d) /\ Len(Ev.v) > 0)
         /\ \A i \in 1..Len(Ev.v) :
              /\ Chk(<<"digit range", Ev.v[i], Ev.d[i]>>, DigitsOk(Ev.d[i], n, g))
              /\ Chk(<<"recomposition", Ev.v[i], Ev.d[i]>>, Near(Recomposed(Ev.d[i], g, w), Ev.v[i], tol))

(* {ev:"weights", w, bgbit, h:[word]}: the gadget vector *)
Weights ==
  /\ Is("weights")
  /\ Chk("number of weights", Len(Ev.h) = Ev.l)
  /\ \A i \in 1..Len(Ev.h) :
       Chk(<<"weight", i>>, Ev.h[i] = Pow2(Ev.w - (i * Ev.bgbit), Ev.w \div 16))

(* {ev:"transformed", same:BOOLEAN}: the transform-domain decomposition is   *)
(* the transform of the digits                                              *)
Transformed == Is("transformed") /\ Chk(<<"transform of digits", Ev.what>>, Ev.same = Ev.of)

Next == Decomposed \/ Weights \/ Transformed
Spec == TraceInit /\ [][Next]_l
=============================================================================
