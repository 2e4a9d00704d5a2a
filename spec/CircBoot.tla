------------------------------ MODULE CircBoot ------------------------------
(***************************************************************************)
(* Circuit bootstrapping on a small scale, on phases.  A bit with any       *)
(* admissible noise selects, by its sign, +-h_i/2 for every gadget level i; *)
(* h_i/2 is added; a private key switch multiplies by -s and by 1 (or, for  *)
(* the complement, everything starts from the negated sample, or the rows   *)
(* are subtracted from the gadget of one).  The rows must be the gadget     *)
(* form of the bit, and the external product with any ring ciphertext must  *)
(* multiply by the bit, so that multiplexers select.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

CONSTANTS G,       \* points of the input circle (a multiple of 8)
          Q,       \* ring torus points, Q = Bg^L
          Bg, L, N,
          V,       \* noise of a row: -V..V
          A        \* torus values the multiplexed ciphertexts range over
VARIABLES m, p, s, rows, a, b, pc
vars == <<m, p, s, rows, a, b, pc>>

Mu == G \div 8
H(i) == Q \div (Bg ^ i)              \* i in 1..L; h_L = 1, so halves are doubled below
Signed(x) == IF (x % G) < G \div 2 THEN 1 ELSE -1
Poly == 0..(N - 1)
PAdd(x, y) == [j \in Poly |-> (x[j] + y[j]) % Q]
PMul(x, y) ==   \* negacyclic
  [j \in Poly |-> FoldLeft(LAMBDA acc, i :
      acc + (x[i - 1] * (IF i - 1 <= j THEN y[j - (i - 1)] ELSE -y[N + j - (i - 1)])), 0, [i \in 1..N |-> i]) % Q]
(* look-up (twice the value, to stay integral), plus h_i, halved, plus noise *)
Level(x, i) == ((Signed(x) * H(i)) + H(i)) \div 2
Unit(c) == [j \in Poly |-> IF j = 0 THEN c ELSE 0]
Rows(x, v) == [k \in {0, 1} |-> [i \in 1..L |->
                PAdd(PMul(Unit(Level(x, i)), IF k = 0 THEN [j \in Poly |-> -s[j]] ELSE Unit(1)), Unit(v[i]))]]
Complement(r) == [k \in {0, 1} |-> [i \in 1..L |->
                   PAdd([j \in Poly |-> -r[k][i][j]], PMul(Unit(H(i)), IF k = 0 THEN [j \in Poly |-> -s[j]] ELSE Unit(1)))]]

Noises == {v \in [1..L -> (-V)..V] : \A i, j \in 1..L : v[i] = v[j]}
Init == /\ m \in {0, 1} /\ s \in [Poly -> {-1, 0, 1}]
        /\ p \in {(x % G) : x \in {(IF m = 1 THEN Mu ELSE -Mu) + e : e \in (1 - Mu)..(Mu - 1)}}
        /\ rows = <<>> /\ a = <<>> /\ b = <<>> /\ pc = "in"
Boot == /\ pc = "in" /\ pc' = "gadget" /\ \E v \in Noises : rows' = Rows(p, v)
        /\ UNCHANGED <<m, p, s, a, b>>
Invert == /\ pc = "gadget" /\ \E v \in Noises : rows' \in {Rows((G - p) % G, v), Complement(rows)}
          /\ m' = 1 - m /\ pc' = "inverse" /\ UNCHANGED <<p, s, a, b>>
Use == /\ pc \in {"gadget", "inverse"} /\ pc' = "use"
       /\ a' \in [Poly -> A] /\ b' \in [Poly -> A] /\ UNCHANGED <<m, p, s, rows>>
Next == Boot \/ Invert \/ Use
Spec == Init /\ [][Next]_vars

Centre(x) == LET y == x % Q IN IF 2 * y >= Q THEN y - Q ELSE y
AbsI(x) == IF x < 0 THEN -x ELSE x
Near(x, y, e) == \A j \in Poly : AbsI(Centre(x[j] - y[j])) <= e
Form(k, i) == PMul(Unit(m * H(i)), IF k = 0 THEN [j \in Poly |-> -s[j]] ELSE Unit(1))
Gadget == pc \in {"gadget", "inverse"} => \A k \in {0, 1}, i \in 1..L : Near(rows[k][i], Form(k, i), V)

(* base-Bg digits of a torus value, most significant first, in 0..Bg-1       *)
Digit(x, i) == (x \div H(i)) % Bg
Dec(x, i) == [j \in Poly |-> Digit(x[j], i)]
Product == FoldLeft(LAMBDA acc, i : PAdd(acc, PAdd(PMul(Dec(a, i), rows[0][i]), PMul(Dec(b, i), rows[1][i]))),
                    Unit(0), [i \in 1..L |-> i])
PhaseOf == PAdd(b, [j \in Poly |-> -PMul(a, s)[j]])
Selects == pc = "use" => Near(Product, [j \in Poly |-> m * PhaseOf[j]], 2 * L * N * Bg * V)
=============================================================================
