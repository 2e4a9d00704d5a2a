--------------------------------- MODULE Ntt ---------------------------------
(***************************************************************************)
(* C18.  Number-theoretic transforms as the library composes them, over a   *)
(* small prime: twist, decimation-in-frequency butterflies with twiddle     *)
(* factors from a table, pointwise product, the mirrored butterflies, and   *)
(* the inverse twist with 1/N.  Each butterfly stage is one transition of   *)
(* two arrays; the invariant says what the arrays are at every stage: after *)
(* the forward stages, the values of the polynomials at the odd powers of   *)
(* the root in bit-reversed order, and at the end the negacyclic product.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

CONSTANTS Prime, Psi, NBit, Coefs
N == 2 ^ NBit
VARIABLES a0, b0, a, b, stage, pc
vars == <<a0, b0, a, b, stage, pc>>

Md(x) == x % Prime
PowM(x, e) == FoldLeft(LAMBDA acc, i : Md(acc * x), 1, [i \in 1..e |-> i])
Inv(x) == CHOOSE y \in 1..(Prime - 1) : Md(x * y) = 1
Om == PowM(Psi, 2)
Rev(i, n) == FoldLeft(LAMBDA acc, j : (2 * acc) + ((i \div 2 ^ j) % 2), 0, [j \in 1..n |-> j - 1])
Tup(f) == SubSeq(f, 1, N)
Polys == [1..N -> Coefs]
At(f, x) == FoldLeft(LAMBDA acc, i : Md((acc * x) + f[N + 1 - i]), 0, [i \in 1..N |-> i])
Negacyclic(f, g) ==
  Tup([k \in 1..N |-> FoldLeft(LAMBDA acc, i : Md(acc + (IF i <= k THEN f[i] * g[k - i + 1] ELSE -(f[i] * g[N + k - i + 1]))), 0, [i \in 1..N |-> i])])

ASSUME PowM(Psi, N) = Prime - 1

Init == /\ a0 \in Polys /\ b0 \in Polys
        /\ a = a0 /\ b = b0 /\ stage = 0 /\ pc = "twist"
Twist == /\ pc = "twist"
         /\ a' = Tup([i \in 1..N |-> Md(a[i] * PowM(Psi, i - 1))])
         /\ b' = Tup([i \in 1..N |-> Md(b[i] * PowM(Psi, i - 1))])
         /\ pc' = "forward" /\ UNCHANGED <<a0, b0, stage>>
(* stage s: blocks of size N / 2^s; butterfly then twiddle of the lower half *)
Fwd(f, s) ==
  LET sz == N \div 2 ^ s
      h  == sz \div 2
  IN  Tup([i \in 1..N |->
        LET p == (i - 1) % sz
        IN  IF p < h THEN Md(f[i] + f[i + h])
            ELSE Md((f[i - h] - f[i]) * PowM(Om, 2 ^ s * (p - h)))])
Bwd(f, s) ==
  LET sz == N \div 2 ^ s
      h  == sz \div 2
      tw(i) == Md(f[i] * PowM(Inv(Om), 2 ^ s * (((i - 1) % sz) - h)))
  IN  Tup([i \in 1..N |->
        LET p == (i - 1) % sz
        IN  IF p < h THEN Md(f[i] + tw(i + h)) ELSE Md(f[i - h] - tw(i))])
Forward == /\ pc = "forward" /\ stage < NBit
           /\ a' = Fwd(a, stage) /\ b' = Fwd(b, stage) /\ stage' = stage + 1
           /\ UNCHANGED <<a0, b0, pc>>
Product == /\ pc = "forward" /\ stage = NBit
           /\ a' = Tup([i \in 1..N |-> Md(a[i] * b[i])]) /\ pc' = "back"
           /\ UNCHANGED <<a0, b0, b, stage>>
Back == /\ pc = "back" /\ stage > 0
        /\ stage' = stage - 1 /\ a' = Bwd(a, stage - 1) /\ b' = Bwd(b, stage - 1)
        /\ UNCHANGED <<a0, b0, pc>>
Untwist == /\ pc = "back" /\ stage = 0
           /\ LET t(i) == Md(PowM(Inv(Psi), i - 1) * Inv(Md(N)))
              IN  a' = Tup([i \in 1..N |-> Md(a[i] * t(i))]) /\ b' = Tup([i \in 1..N |-> Md(b[i] * t(i))])
           /\ pc' = "done" /\ UNCHANGED <<a0, b0, stage>>
Next == Twist \/ Forward \/ Product \/ Back \/ Untwist
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Values == (pc = "forward" /\ stage = NBit) =>
             \A i \in 1..N : /\ a[i] = At(a0, PowM(Psi, (2 * Rev(i - 1, NBit)) + 1))
                             /\ b[i] = At(b0, PowM(Psi, (2 * Rev(i - 1, NBit)) + 1))
Convolves == pc = "done" => a = Negacyclic(a0, b0)
Inverts == pc = "done" => b = Tup([i \in 1..N |-> Md(b0[i])])
Terminates == <>(pc = "done")
=============================================================================
