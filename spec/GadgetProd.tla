----------------------------- MODULE GadgetProd -----------------------------
(***************************************************************************)
(* The gadget (external) product on a tiny ring: torus Z_Q, degree N, key   *)
(* s, gadget of L digits in base Bg.  A gadget ciphertext of the message    *)
(* polynomial m has 2L rows; row i of the mask half has phase -m*s*g_i, row *)
(* i of the body half m*g_i, each plus the row noise.  The machine computes *)
(* a product, a multiplexer or a monomial multiplexer digit by digit and    *)
(* TLC checks the phase of the result for every input of the configured     *)
(* sets.                                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

CONSTANTS Q, N, L, LogBg, Vals, Noise, Msgs
VARIABLES s, m, c, d, rowmask, e, acc, step

vars == <<s, m, c, d, rowmask, e, acc, step>>
Bg == 2 ^ LogBg
G(i) == Q \div (Bg ^ i)
LastW == G(L)
Poly(V) == [0..(N - 1) -> V]
Zp == [i \in 0..(N - 1) |-> 0]
AddP(a, b) == [i \in 0..(N - 1) |-> (a[i] + b[i]) % Q]
SubP(a, b) == [i \in 0..(N - 1) |-> (a[i] - b[i]) % Q]
Sum(f(_), lo, hi) == FoldLeft(LAMBDA x, i : x + f(i), 0, [i \in 1..(hi - lo + 1) |-> lo + i - 1])
MulP(a, b) == [j \in 0..(N - 1) |->
                 Sum(LAMBDA i : IF i <= j THEN a[i] * b[j - i] ELSE -(a[i] * b[N + j - i]), 0, N - 1) % Q]
Centre(x) == IF x >= Q \div 2 THEN x - Q ELSE x
AbsC(x) == LET y == Centre(x % Q) IN IF y < 0 THEN -y ELSE y

(* balanced digits of a torus value, most significant first *)
Offset == Sum(LAMBDA i : (Bg \div 2) * G(i), 1, L)
Digit(x, i) == (((x + Offset + (IF LastW > 1 THEN LastW \div 2 ELSE 0)) \div G(i)) % Bg) - (Bg \div 2)
Dig(p, i) == [j \in 0..(N - 1) |-> Digit(p[j], i)]

(* the rows: <<mask, body>> with phase body - mask * s *)
Row(h, i) ==
  LET a == rowmask
      want == IF h = 0 THEN [j \in 0..(N - 1) |-> (-(MulP(m, s)[j]) * G(i)) % Q]
                       ELSE [j \in 0..(N - 1) |-> (m[j] * G(i)) % Q]
  IN  <<a, AddP(AddP(MulP(a, s), want), [j \in 0..(N - 1) |-> IF j = 0 THEN e ELSE 0])>>

PhaseOf(x) == SubP(x[2], MulP(x[1], s))

(* steps 1..2L multiply one digit polynomial with one row and accumulate    *)
In == <<SubP(c[1], d[1]), SubP(c[2], d[2])>>   \* c - d: the multiplexer's difference
Init == /\ s \in Poly({-1, 0, 1}) /\ m \in Msgs
        /\ c \in Poly(Vals) \X Poly(Vals)
        /\ d \in {<<Zp, Zp>>, <<[i \in 0..(N-1) |-> i + 1], [i \in 0..(N-1) |-> (Q - 1 - i) % Q]>>}
        /\ rowmask \in {Zp, [i \in 0..(N - 1) |-> (3 * i + 5) % Q]}
        /\ e \in Noise
        /\ acc = <<Zp, Zp>> /\ step = 0
Mac == /\ step < 2 * L
       /\ LET h == step \div L  i == (step % L) + 1
              x == Dig(In[h + 1], i)
              r == Row(h, i)
          IN  acc' = <<AddP(acc[1], MulP(x, r[1])), AddP(acc[2], MulP(x, r[2]))>>
       /\ step' = step + 1
       /\ UNCHANGED <<s, m, c, d, rowmask, e>>
Fin == /\ step = 2 * L
       /\ acc' = <<AddP(acc[1], d[1]), AddP(acc[2], d[2])>>
       /\ step' = step + 1
       /\ UNCHANGED <<s, m, c, d, rowmask, e>>
Next == Mac \/ Fin
Spec == Init /\ [][Next]_vars

Norm1(p) == Sum(LAMBDA i : AbsC(p[i]), 0, N - 1)
(* rounding of the decomposition, times the message; row noise times digits *)
Tol == Norm1(m) * (1 + Norm1(s)) * (LastW \div 2) + 2 * L * N * (Bg \div 2) * (IF e < 0 THEN -e ELSE e)
Expect == AddP(PhaseOf(d), MulP(m, PhaseOf(In)))
Product == step = 2 * L + 1 => \A j \in 0..(N - 1) : AbsC(PhaseOf(acc)[j] - Expect[j]) <= Tol
(* a multiplexer: with m = 1 the result is c, with m = 0 it is d            *)
IsBit == \A j \in 1..(N - 1) : m[j] = 0
Select == step = 2 * L + 1 /\ IsBit /\ m[0] \in {0, 1} =>
            \A j \in 0..(N - 1) : AbsC(PhaseOf(acc)[j] - PhaseOf(IF m[0] = 1 THEN c ELSE d)[j]) <= Tol
=============================================================================
