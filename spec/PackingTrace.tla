---------------------------- MODULE PackingTrace ----------------------------
(* C11.  Automorphisms, annihilations and packings of the real library,     *)
(* every coefficient of every resulting phase judged here.                  *)
EXTENDS TraceBase, Levels

VARIABLE keys

Key == /\ Is("key") /\ keys' = [keys EXCEPT ![Ev.lvl] = Ev.vals]
Coef == /\ Is("coef")
        /\ Chk(<<"ring phase", Ev.lvl, Ev.j>>, RingPhase(Ev.a, Ev.b, keys[Ev.lvl], Ev.j, Lv(Ev.lvl).w) = Ev.ph)
        /\ UNCHANGED keys
Sample == /\ Is("sample")
          /\ Chk(<<"sample phase", Ev.lvl>>, Phase(Ev.c, keys[Ev.lvl], Lv(Ev.lvl).w) = Ev.ph)
          /\ UNCHANGED keys
Same == Is("same") /\ Chk(<<"operand changed", Ev.what>>, Ev.ok) /\ UNCHANGED keys

(* one automorphism: standard deviation of its key switch                   *)
Sd == [lvl1 |-> <<184, 10>>, lvl2 |-> <<222, 24>>]
(* seven standard deviations after a number of key switches in a row        *)
Tol(lv, steps) == Shl(OfNat((7 * Sd[lv][1] * (ISqrt(steps * 100) + 1)) \div 10, Limbs(lv)), Sd[lv][2])
LogN == [lvl1 |-> 10, lvl2 |-> 11]

Auto ==
  /\ Is("auto")
  /\ \E lv \in {Ev.lvl} : \E n \in {Lv(lv).n}, tol \in {Tol(lv, 1)} :
       \A i \in 0..(n - 1) :
         LET t == (i * (Ev.d % (2 * n))) % (2 * n)
         IN  Chk(<<"automorphism", lv, "index", Ev.d, "coefficient", i>>,
                 Near(IF t < n THEN Ev.r[t + 1] ELSE Neg(Ev.r[t - n + 1]), Ev.m[i + 1], tol))
  /\ UNCHANGED keys

Annihilate ==
  /\ Is("annihilate")
  /\ \E lv \in {Ev.lvl} : \E tol \in {Tol(lv, LogN[lv])}, zero \in {Zero(Limbs(lv))} :
       \A j \in 1..Lv(lv).n :
         Chk(<<"annihilation", lv, "coefficient", j - 1>>, Near(Ev.r[j], IF j = 1 THEN Ev.m[1] ELSE zero, tol))
  /\ UNCHANGED keys

Log2Up(k) == CHOOSE e \in 0..11 : 2 ^ e >= k /\ (e = 0 \/ 2 ^ (e - 1) < k)
Pack ==
  /\ Is("pack")
  /\ \E lv \in {Ev.lvl} :
     \E tol \in {Tol(lv, LogN[lv])}, zero \in {Zero(Limbs(lv))}, len \in {Len(Ev.ms)} :
     \E step \in {IF Ev.compact THEN 1 ELSE Lv(lv).n \div (2 ^ Log2Up(len))} :
       \A j \in 0..(Lv(lv).n - 1) :
         LET src == j \div step
         IN  Chk(<<"packing", lv, "compact", Ev.compact, "samples", len, "coefficient", j>>,
                 Near(Ev.r[j + 1], IF j % step = 0 /\ src < len THEN Ev.ms[src + 1] ELSE zero, tol))
  /\ UNCHANGED keys

Init == TraceInit /\ keys = [n \in DOMAIN LevelTable |-> <<>>]
Next == Key \/ Coef \/ Sample \/ Same \/ Auto \/ Annihilate \/ Pack
Spec == Init /\ [][Next]_<<l, keys>>
=============================================================================
