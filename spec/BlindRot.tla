------------------------------ MODULE BlindRot ------------------------------
(***************************************************************************)
(* Blind rotation on a small scale: input torus Z_Q, key s of n values,     *)
(* ring degree N (rotation grid 2N points, coarsened by the factor Outs for *)
(* several outputs).  The accumulator starts as the table rotated by the    *)
(* body and turns by one input coefficient per step, exactly when the key   *)
(* bit is set.  Checked for every input sample and key: the accumulator is  *)
(* always the table times a power of X, the final power is the phase to     *)
(* within the rounding of the coefficients, and the coefficients read out   *)
(* are the entries of the selected tables, with the sign of the half turn.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

CONSTANTS Q, n, N, Outs, Keys
VARIABLES a, b, s, acc, i
vars == <<a, b, s, acc, i>>

Grid == 2 * N
Step == (Q \div Grid) * Outs    \* torus width of one rotation unit
Up(x) == (((x + (Step \div 2)) % Q) \div Step) * Outs     \* mask coefficients round
Down(x) == (x \div Step) * Outs                           \* the body truncates

(* entry j of the table: table (j mod Outs), position j div Outs; distinct  *)
T(j) == 10 + j
TV == [j \in 0..(N - 1) |-> T(j)]
Rot(p, x) == [j \in 0..(N - 1) |-> LET e == (j - x) % (2 * N) IN IF e < N THEN p[e] ELSE -p[e - N]]

Init == /\ a \in [1..n -> 0..(Q - 1)] /\ b \in 0..(Q - 1) /\ s \in [1..n -> Keys]
        /\ acc = Rot(TV, Grid - Down(b)) /\ i = 1
Turn == /\ i <= n /\ i' = i + 1
        /\ acc' = IF s[i] = 0 THEN acc ELSE Rot(acc, (Up(a[i]) * s[i]) % Grid)
        /\ UNCHANGED <<a, b, s>>
Next == Turn
Spec == Init /\ [][Next]_vars

Done == i = n + 1
Sum(f(_)) == FoldLeft(LAMBDA x, j : x + f(j), 0, [j \in 1..n |-> j])
Amount == (Grid - Down(b) + Sum(LAMBDA j : Up(a[j]) * s[j])) % Grid
Phase == (b - Sum(LAMBDA j : a[j] * s[j])) % Q
Rotation == Done => acc = Rot(TV, Amount)
(* the rotation undoes the phase up to (1 + number of set bits) half steps   *)
Centre(x) == LET y == x % Q IN IF y >= Q \div 2 THEN y - Q ELSE y
AbsI(x) == IF x < 0 THEN -x ELSE x
Rounding == Done => AbsI(Centre(((Amount * (Q \div Grid)) + Phase) % Q))
                      <= (Step - 1) + Sum(LAMBDA j : AbsI(s[j]) * (Step \div 2))
(* reading out coefficient o < Outs: table o at the position of the phase    *)
Lookup == Done => \A o \in 0..(Outs - 1) :
            LET pos == (o - Amount) % Grid
            IN  /\ acc[o] = (IF pos < N THEN T(pos) ELSE -T(pos - N))
                /\ pos % Outs = o
=============================================================================
