------------------------------- MODULE Digits -------------------------------
(***************************************************************************)
(* Model of homomorphic digit decomposition on a torus of 2^W points.  The *)
(* message of ND digits of BB bits is in the top bits of the input phase,  *)
(* anything small below.  Digit by digit from the least significant one:   *)
(* the input is shifted so that the digit is on top, the previous digits   *)
(* below it are cancelled by a correction that only depends on the most    *)
(* significant bit of the previous digit (one bootstrapping of a constant  *)
(* table), and the remainder is less than a quarter of the digit's step.   *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANTS W, BB, ND, E, InNoise    \* E bounds each of the three noises
Q == 2 ^ W
Step == 2 ^ (W - BB)
Delta == 2 ^ (W - BB * ND)
Centred(x) == LET y == x % Q IN IF y >= Q \div 2 THEN y - Q ELSE y
Noise == {-E, 0, E}

Unit == {-1, 0, 1}
VARIABLES m, in, digits, sub
vars == <<m, in, digits, sub>>
k == Len(digits) + 1

Init == /\ m \in 0..(2 ^ (BB * ND) - 1)
        /\ \E e \in InNoise : in = (m * Delta + e) % Q
        /\ digits = <<>> /\ sub = 0
Digit ==
  /\ k <= ND
  /\ \E e1 \in Noise, e2 \in Noise, e3 \in Noise :
       LET raw == (in * 2 ^ (BB * ND - BB * k) + e1) % Q
           c   == (IF k = 1 THEN raw ELSE raw + sub - Step \div 2) % Q
           low == (c + e2 + Step \div 2) % Q
       IN  /\ digits' = Append(digits, c)
           /\ sub' = (IF low < Q \div 2 THEN Step \div 4 ELSE -(Step \div 4)) + e3
  /\ UNCHANGED <<m, in>>
Spec == Init /\ [][Digit]_vars

Value(i) == (m \div (2 ^ (BB * (i - 1)))) % (2 ^ BB)
(* what is left of the lower digits                                          *)
Rest(i) == IF i = 1 THEN 0
           ELSE LET below == (m * Delta * 2 ^ (BB * ND - BB * i)) % Step
                IN  below - (IF below < Step \div 2 THEN Step \div 4 ELSE 3 * (Step \div 4))
Exact == \A i \in 1..Len(digits) :
   LET amp == 2 ^ (BB * ND - BB * i)
       d == Centred(digits[i] - Value(i) * Step - Rest(i))
       bound == 2 * E + amp
   IN  -bound <= d /\ d <= bound
Decrypts == \A i \in 1..Len(digits) :
   ((digits[i] + Step \div 2) % Q) \div Step = Value(i)
Quarter == \A i \in 2..ND : -(Step \div 4) <= Rest(i) /\ Rest(i) < Step \div 4
=============================================================================
