----------------------------- MODULE RingModel -----------------------------
(***************************************************************************)
(* Model of the ring layer over integers modulo Q: a register pair is      *)
(* transformed by monomial multiplications, automorphisms and products,    *)
(* and the laws the rest of the library relies on are invariants.          *)
(***************************************************************************)
EXTENDS Ring, FiniteSets

CONSTANTS N, Q, MaxOps
Coefs == 0..(Q - 1)
Polys == [1..N -> Coefs]
NegQ(x) == (-x) % Q
AddP(p, q) == [i \in 1..N |-> (p[i] + q[i]) % Q]
SubP(p, q) == [i \in 1..N |-> (p[i] - q[i]) % Q]
X(p, a) == MulXai(p, a, NegQ)
RECURSIVE MulFrom(_, _, _)
MulFrom(p, q, i) == IF i = 0 THEN [j \in 1..N |-> 0]
                    ELSE AddP(MulFrom(p, q, i - 1), [j \in 1..N |-> (q[i] * X(p, i - 1)[j]) % Q])
Mul(p, q) == MulFrom(p, q, N)
Auto(p, d) == CHOOSE r \in Polys : IsAuto(r, p, d, NegQ)
Odd == {d \in 1..(2 * N) : d % 2 = 1}
Dot(a, s) == MulFrom(a, s, N)   \* not used for scalars

VARIABLES p, q, p0, shift, ops
vars == <<p, q, p0, shift, ops>>

Init == p \in Polys /\ q \in Polys /\ p0 = p /\ shift = 0 /\ ops = 0
(* rotations accumulate as exponents modulo 2N: this is blind rotation *)
Rotate == /\ ops < MaxOps
          /\ \E a \in 0..(2 * N - 1) : p' = X(p, a) /\ shift' = (shift + a) % (2 * N)
          /\ ops' = ops + 1 /\ UNCHANGED <<q, p0>>
(* ... also through the difference form p + (X^a - 1) p *)
RotateByDifference ==
          /\ ops < MaxOps
          /\ \E a \in 0..(2 * N - 1) : /\ p' = AddP(p, SubP(X(p, a), p))
                                        /\ shift' = (shift + a) % (2 * N)
          /\ ops' = ops + 1 /\ UNCHANGED <<q, p0>>
Next == Rotate \/ RotateByDifference
Spec == Init /\ [][Next]_vars

Accumulates == p = X(p0, shift)
FullTurn    == X(p, 2 * N) = p /\ X(p, N) = [i \in 1..N |-> NegQ(p[i])]
Product     == /\ Mul(p, q) = Mul(q, p)
               /\ \A a \in 0..(2 * N - 1) : Mul(X(p, a), q) = X(Mul(p, q), a)
Automorphism == \A d \in Odd :
               /\ Cardinality({r \in {Auto(p, d)} : IsAuto(r, p, d, NegQ)}) = 1
               /\ Mul(Auto(p, d), Auto(q, d)) = Auto(Mul(p, q), d)
               /\ \A a \in 0..(2 * N - 1) : Auto(X(p, a), d) = X(Auto(p, d), (a * d) % (2 * N))
(* extraction: <mask extracted at j, s> is coefficient j of a*s, any key s *)
Extraction  == \A j \in 0..(N - 1) :
   LET m == ExtractMask(p, j, NegQ)
       RECURSIVE D(_)
       D(i) == IF i = 0 THEN 0 ELSE (D(i - 1) + (m[i] * q[i])) % Q
   IN  D(N) = Mul(p, q)[j + 1]
=============================================================================
