--------------------------------- MODULE Bfv ---------------------------------
(***************************************************************************)
(* C19.  Multiplication of ring ciphertexts of integer polynomials over a  *)
(* small torus Z/Q, degree 2: the three products of the unsigned           *)
(* representatives are divided by the scale and rounded, the term of the   *)
(* squared key is relinearised with a balanced digit decomposition and a   *)
(* noisy key.  All keys, plaintexts, noise signs and a set of masks that   *)
(* includes the ends of the word.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Q, T,          \* torus size and plaintext modulus, T divides Q
          Masks, E,      \* masks tried; noise in -E..E
          Bg, L          \* relinearisation: base and number of digits
VARIABLES stage, s, ma, mb, ca, cb, three, two, rn
vars == <<stage, s, ma, mb, ca, cb, three, two, rn>>
D == Q \div T
P2 == [1..2 -> 0..(T - 1)]
Pair(S) == {<<x, y>> : x \in S, y \in S}
Mul(a, b) == <<(a[1] * b[1]) - (a[2] * b[2]), (a[1] * b[2]) + (a[2] * b[1])>>
Plus(a, b) == <<a[1] + b[1], a[2] + b[2]>>
Minus(a, b) == <<a[1] - b[1], a[2] - b[2]>>
Times(c, a) == <<c * a[1], c * a[2]>>
Mod(a) == <<a[1] % Q, a[2] % Q>>
Half(x) == IF x % Q >= Q \div 2 THEN (x % Q) - Q ELSE x % Q
Div(x) == (x + (D \div 2)) \div D
Scale(a) == Mod(<<Div(a[1]), Div(a[2])>>)
Enc(mask, m, e) == [a |-> mask, b |-> Mod(Plus(Mul(mask, s), Plus(Times(D, m), e)))]
Phase2(c) == Mod(Minus(c.b, Mul(c.a, s)))
Phase3(c) == Mod(Plus(Minus(c[2], Mul(c[1], s)), Mul(c[3], Mul(s, s))))
(* balanced digits of x, most significant first: the remainder after L digits *)
(* is rounded away                                                          *)
RECURSIVE Pow(_, _)
Pow(b, k) == IF k = 0 THEN 1 ELSE b * Pow(b, k - 1)
Unit == Q \div Pow(Bg, L)
Round(x) == ((x + (Unit \div 2)) \div Unit) * Unit
Noise == {<<x, y>> : x \in {-E, 0, E}, y \in {-E, E}}
Init == /\ stage = "start" /\ s \in Pair({-1, 0, 1}) /\ ma \in Pair(0..(T - 1)) /\ mb \in Pair(0..(T - 1))
        /\ ca = 0 /\ cb = 0 /\ three = 0 /\ two = 0 /\ rn = 0
Encrypt == /\ stage = "start" /\ stage' = "fresh"
           /\ \E x \in Pair(Masks), e \in Noise : ca' = Enc(x, ma, e)
           /\ \E y \in Pair(Masks) : cb' = Enc(y, mb, <<E, -E>>)
           /\ UNCHANGED <<s, ma, mb, three, two, rn>>
Multiply == /\ stage = "fresh" /\ stage' = "product"
            /\ three' = <<Scale(Plus(Mul(ca.a, cb.b), Mul(ca.b, cb.a))), Scale(Mul(ca.b, cb.b)), Scale(Mul(ca.a, cb.a))>>
            /\ UNCHANGED <<s, ma, mb, ca, cb, two, rn>>
(* a relinearisation key row encrypts the squared key times a weight; its sum *)
(* with the digits adds the square times the rounded polynomial, and noise   *)
(* of at most L digits times the row noise                                   *)
Relinearise == /\ stage = "product" /\ stage' = "two"
               /\ \E n \in {-1, 1} :
                    /\ rn' = n
                    /\ two' = [a |-> three[1], b |-> Mod(Plus(three[2], Plus(Mul(<<Round(three[3][1]), Round(three[3][2])>>, Mul(s, s)), <<n, -n>>)))]
               /\ UNCHANGED <<s, ma, mb, ca, cb, three>>
Next == Encrypt \/ Multiply \/ Relinearise
Spec == Init /\ [][Next]_vars

Far(x) == IF Half(x) < 0 THEN -Half(x) ELSE Half(x)
Off(p, m) == LET d == Minus(p, Times(D, m)) IN IF Far(d[1]) > Far(d[2]) THEN Far(d[1]) ELSE Far(d[2])
(* wrap-arounds of an operand: (b - a s - phase) / Q, at most 2 * 1 + 1       *)
MulBound == (T * 2 * 2 * 3 * E) + (2 * 2 * (T - 1) * E) + ((1 + 2 + 4) \div 2) + 1
Product == stage \in {"product", "two"} => Off(Phase3(three), Mul(ma, mb)) <= MulBound
Relin == stage = "two" => Off(Phase2(two), Mul(ma, mb)) <= MulBound + (4 * (Unit \div 2)) + 1
Decode(p) == <<((p[1] + (D \div 2)) \div D) % T, ((p[2] + (D \div 2)) \div D) % T>>
Decrypts == stage = "two" => Decode(Phase2(two)) = <<Mul(ma, mb)[1] % T, Mul(ma, mb)[2] % T>>
=============================================================================
