----------------------------- MODULE DigitsTrace -----------------------------
(* C12.  Digit decompositions of the real library.                          *)
EXTENDS TraceBase, Levels

VARIABLE keys

Key == /\ Is("key") /\ keys' = [keys EXCEPT ![Ev.lvl] = Ev.vals]
Sample == /\ Is("sample")
          /\ Chk(<<"sample phase", Ev.lvl>>, Phase(Ev.c, keys[Ev.lvl], Lv(Ev.lvl).w) = Ev.ph)
          /\ UNCHANGED keys
Same == Is("same") /\ Chk("operand changed", Ev.ok) /\ UNCHANGED keys

(* key switch to the middle level, and bootstrapping of the correction, in   *)
(* units of 2^10                                                            *)
KsSd == [lvl3 |-> 5460, lvl2 |-> 16]
BrSd == [lvl0 |-> 5034, lvlhalf |-> 5453]
Tol(first, from, br, n) ==
  LET v == (KsSd[from] \div 8) * (KsSd[from] \div 8) + (IF first THEN 0 ELSE (BrSd[br] \div 8) * (BrSd[br] \div 8))
  IN  Shl(OfNat(7 * 8 * (ISqrt(v) + 1), n), 10)

BitAt(x, k) == (x[(k \div 16) + 1] \div P2(k % 16)) % 2

Digits ==
  /\ Is("digits")
  /\ Chk("digit count", Len(Ev.r) = Ev.nd)
  /\ \E w \in {Lv(Ev.from).w}, lo \in {Limbs(Ev.to)}, total \in {Ev.bb * Ev.nd} :
     (* the message: the phase rounded to the encoding                       *)
     \E x \in {IF total = w THEN Ev.ph ELSE Add(Ev.ph, Pow2(w - total - 1, w \div 16))} :
     \E msg \in {IF total = w THEN x ELSE Shl(Shr(x, w - total), w - total)} :
       \A i \in 1..Ev.nd :
         LET s    == total - Ev.bb * i
             raw  == Resize(Shl(Ev.ph, s), lo)
             step == Pow2(Lv(Ev.to).w - Ev.bb - 2, lo)     \* a quarter of the digit's step
             up   == BitAt(Shl(msg, s), w - Ev.bb - 1) = 1  \* the previous digit's top bit
             want == IF i = 1 THEN raw ELSE Sub(raw, MulC(step, IF up THEN 3 ELSE 1))
             d    == Top(Shl(msg, s), Ev.bb)
             enc  == MulC(Pow2(Lv(Ev.to).w - Ev.bb, lo), d)
         IN  /\ Chk(<<"phase of digit", i, "of", Ev.nd, "base bits", Ev.bb, Ev.what, "message", Ev.ph, "want", want, "got", Ev.r[i]>>,
                    Near(Ev.r[i], want, Tol(i = 1, Ev.from, Ev.br, lo)))
             /\ Chk(<<"digit", i, "is", d, Ev.what>>, Near(Ev.r[i], enc, Pow2(Lv(Ev.to).w - Ev.bb - 1, lo)))
  /\ UNCHANGED keys

Init == TraceInit /\ keys = [n \in DOMAIN LevelTable |-> <<>>]
Next == Key \/ Sample \/ Same \/ Digits
Spec == Init /\ [][Next]_<<l, keys>>
=============================================================================
