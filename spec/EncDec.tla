------------------------------- MODULE EncDec -------------------------------
(***************************************************************************)
(* Encryption and decryption of a plaintext space of PM messages on a      *)
(* torus of Q = 2^W points with a key of N small integers.  A store of     *)
(* ciphertexts is filled by encryptions (any mask, any error within the    *)
(* bound) and by adversarial ciphertexts of arbitrary content; decryption  *)
(* must return the plaintext of every fresh one and the nearest encoding's *)
(* plaintext of every one, and must be a function of the phase alone.      *)
(***************************************************************************)
EXTENDS Integers, FiniteSets

CONSTANTS W, N, PM, E, KeySet

Q == 2 ^ W
Delta == Q \div PM
Torus == 0..(Q - 1)

VARIABLES key, ct, kind, m

Dist(x, y) == LET z == (x - y) % Q IN IF 2 * z <= Q THEN z ELSE Q - z
RECURSIVE DotI(_, _, _)
DotI(a, s, i) == IF i = 0 THEN 0 ELSE DotI(a, s, i - 1) + (a[i] * s[i])
PhaseOf(c, k) == (c.b - DotI(c.a, k, N)) % Q

(* the library's decision rules *)
IntDec(c, k)  == ((PhaseOf(c, k) + (Delta \div 2)) \div Delta) % PM
BoolDec(c, k) == PhaseOf(c, k) \in 1..((Q \div 2) - 1)

Init == /\ key \in [1..N -> KeySet]
        /\ ct = [a |-> [i \in 1..N |-> 0], b |-> 0] /\ kind = "none" /\ m = 0

Encrypt == /\ kind = "none"
           /\ \E a \in [1..N -> Torus], e \in (-E)..E, x \in 0..(PM - 1) :
                /\ ct' = [a |-> a, b |-> ((x * Delta) + e + DotI(a, key, N)) % Q]
                /\ m' = x
           /\ kind' = "fresh" /\ UNCHANGED key
EncryptBit == /\ kind = "none"
              /\ \E a \in [1..N -> Torus], e \in (-E)..E, x \in 0..1 :
                   /\ ct' = [a |-> a, b |-> ((IF x = 1 THEN Q \div 8 ELSE -(Q \div 8)) + e + DotI(a, key, N)) % Q]
                   /\ m' = x
              /\ kind' = "bit" /\ UNCHANGED key
Adversary == /\ kind = "none"
             /\ \E a \in [1..N -> Torus], b \in Torus : ct' = [a |-> a, b |-> b]
             /\ kind' = "any" /\ m' = 0 /\ UNCHANGED key

Next == Encrypt \/ EncryptBit \/ Adversary
Spec == Init /\ [][Next]_<<key, ct, kind, m>>

Ternary == {-1, 0, 1}

RoundTrip  == kind = "fresh" => IntDec(ct, key) = m
BitTrip    == kind = "bit" => (BoolDec(ct, key) <=> m = 1)
PhaseNoise == kind = "fresh" => Dist(PhaseOf(ct, key), m * Delta) <= E
Nearest    == kind = "any" => \A x \in 0..(PM - 1) :
                 Dist(PhaseOf(ct, key), IntDec(ct, key) * Delta) <= Dist(PhaseOf(ct, key), x * Delta)
=============================================================================
