----------------------------- MODULE KeySwitch -----------------------------
(***************************************************************************)
(* Key switching on a small scale: source torus Z_QD, target torus Z_QT, t  *)
(* digits in base 2^bb.  The switching key holds, for every source key      *)
(* coefficient and digit weight, encryptions of its multiples; the machine  *)
(* folds one digit of one coefficient per step.  Both digit forms of the    *)
(* library are modelled: balanced digits (Balanced = TRUE) and unsigned     *)
(* ones.  Checked for every source sample and key: the target phase is the  *)
(* source phase, up to the rounding of the digits and of the body.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

CONSTANTS QD, QT, n, t, bb, Balanced, Func
VARIABLES a, b, s, ph, i, j
vars == <<a, b, s, ph, i, j>>

Base == 2 ^ bb
W(jj) == QD \div (Base ^ jj)                 \* source weight of digit jj
WT(jj) == QT \div (Base ^ jj)                \* target weight
Half == IF W(t) > 1 THEN W(t) \div 2 ELSE 0
Sum(f(_), m) == FoldLeft(LAMBDA x, k : x + f(k), 0, [k \in 1..m |-> k])
Off == IF Balanced THEN Sum(LAMBDA k : (Base \div 2) * W(k), t) ELSE 0
Digit(x, jj) == ((((x + Off + Half) % QD) \div W(jj)) % Base) - (IF Balanced THEN Base \div 2 ELSE 0)

(* body to the target word: rounded when narrower, exact when wider          *)
Body(x) == IF QT >= QD THEN (x * (QT \div QD)) % QT
           ELSE ((x + ((QD \div QT) \div 2)) \div (QD \div QT)) % QT

Init == /\ a \in [1..n -> 0..(QD - 1)] /\ b \in 0..(QD - 1) /\ s \in [1..n -> {-1, 0, 1}]
        /\ ph = (Func * Body(b)) % QT /\ i = 1 /\ j = 1
Fold == /\ i <= n
        /\ ph' = (ph - (Func * Digit(a[i], j) * s[i] * WT(j))) % QT
        /\ IF j < t THEN i' = i /\ j' = j + 1 ELSE i' = i + 1 /\ j' = 1
        /\ UNCHANGED <<a, b, s>>
Next == Fold
Spec == Init /\ [][Next]_vars

Centre(x, q) == LET y == x % q IN IF y >= q \div 2 THEN y - q ELSE y
AbsI(x) == IF x < 0 THEN -x ELSE x
Phase == (b - Sum(LAMBDA k : a[k] * s[k], n)) % QD
(* compared on the finer torus *)
Q == IF QD > QT THEN QD ELSE QT
Done == i = n + 1
Diff == AbsI(Centre((ph * (Q \div QT)) - (Func * Phase * (Q \div QD)), Q))
Bound == AbsI(Func) * ((Sum(LAMBDA k : AbsI(s[k]), n) * Half * (Q \div QD))
                       + (IF QT < QD THEN (Q \div QT) \div 2 ELSE 0))
Preserved == Done => Diff <= Bound
DigitRange == \A k \in 1..n, d \in 1..t :
                IF Balanced THEN Digit(a[k], d) \in (-(Base \div 2))..((Base \div 2) - 1)
                ELSE Digit(a[k], d) \in 0..(Base - 1)
=============================================================================
