------------------------------- MODULE Config -------------------------------
(***************************************************************************)
(* The build options that change how a blind rotation is computed, as one  *)
(* abstract machine over the ring Z_Q[X]/(X^N + 1).  A rotation turns the   *)
(* accumulator once per key coefficient (or once per pair of them, with    *)
(* key bundling), multiplying it with an encrypted selector polynomial:     *)
(*   binary   1 + (X^a - 1) [s = 1]                                         *)
(*   ternary  two additions, (X^-a - 1)[s = -1] and then (X^a - 1)[s = 1],  *)
(*            the second one already sees the first                         *)
(*   cmux     1 + (X^-a - 1)[s = -1] + (X^a - 1)[s = 1], one product        *)
(*   bundle   1 + (X^(a+b) - 1) s s' + (X^a - 1) s (1 - s')                 *)
(*              + (X^b - 1)(1 - s) s'                                       *)
(* Whatever the option, the table ends up turned by the sum of a*s.         *)
(* The second half is the decomposition of USE_OPTIMAL_DECOMPOSITION.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Ring
CONSTANTS N, Q, Dim, Variant, Width, Levels, Base

VARIABLES key, amt, pos, acc, word
vars == <<key, amt, pos, acc, word>>

NegQ(x) == (Q - x) % Q
Turn(p, a) == MulXai(p, a % (2 * N), NegQ)
Plus(p, q) == [j \in 1..N |-> (p[j] + q[j]) % Q]
Times(c, p) == [j \in 1..N |-> (c * p[j]) % Q]
MinusOne(p, a) == Plus(Turn(p, a), Times(Q - 1, p))
Is1(b) == IF b THEN 1 ELSE 0

Table == [j \in 1..N |-> j % Q]
KeyVals == IF Variant \in {"ternary", "cmux"} THEN {-1, 0, 1} ELSE {0, 1}

Single(p, s, a) ==
  CASE Variant = "binary" -> Plus(p, Times(s, MinusOne(p, a)))
    [] Variant = "ternary" ->
         LET q == Plus(p, Times(Is1(s = -1), MinusOne(p, 2 * N - a)))
         IN  Plus(q, Times(Is1(s = 1), MinusOne(q, a)))
    [] Variant = "cmux" -> Plus(p, Plus(Times(Is1(s = -1), MinusOne(p, 2 * N - a)), Times(Is1(s = 1), MinusOne(p, a))))
Pair(p, s, r, a, b) ==
  Plus(p, Plus(Times(s * r, MinusOne(p, a + b)), Plus(Times(s * (1 - r), MinusOne(p, a)), Times((1 - s) * r, MinusOne(p, b)))))

(* ------------------------------------------------- optimal decomposition *)
Mod2(w) == 2 ^ w
Keep == Levels * Base                         \* bits that are kept
Rounded(x) == ((x + 2 ^ (Width - Keep - 1)) % Mod2(Width)) \div 2 ^ (Width - Keep)
(* digits, least significant first, in -Bg/2..Bg/2, with a carry upwards;   *)
(* a digit of exactly Bg/2 carries when what is left above is at least      *)
(* half of its base, so that no digit above is pushed past its range        *)
Centred(x) == IF x > 2 ^ (Keep - 1) THEN x - 2 ^ Keep ELSE x
RECURSIVE Digs(_, _)
Digs(x, i) ==
  IF i = 0 THEN <<>>
  ELSE LET d == x % 2 ^ Base
           up == (x - d) \div 2 ^ Base
           c == d > 2 ^ (Base - 1) \/ (d = 2 ^ (Base - 1) /\ (up % 2 ^ Base) >= 2 ^ (Base - 1))
       IN  <<IF c THEN d - 2 ^ Base ELSE d>> \o Digs(IF c THEN up + 1 ELSE up, i - 1)
OptDigits(x) == Digs(Centred(Rounded(x)), Levels)

RECURSIVE Recompose(_, _, _)
Recompose(ds, i, w) == IF i > Len(ds) THEN 0 ELSE (ds[i] * 2 ^ (Width - Keep + ((i - 1) * Base))) + Recompose(ds, i + 1, w)
Dist(a, b) == LET d == (a - b) % Mod2(Width) IN IF d > Mod2(Width) \div 2 THEN Mod2(Width) - d ELSE d

Init == /\ key \in [1..Dim -> KeyVals]
        /\ amt \in [1..Dim -> 0..(2 * N - 1)]
        /\ pos = 1
        /\ acc = Table
        /\ word = 0
Rotate ==
  /\ pos <= Dim
  /\ IF Variant = "bundle"
     THEN acc' = Pair(acc, key[pos], key[pos + 1], amt[pos], amt[pos + 1]) /\ pos' = pos + 2
     ELSE acc' = Single(acc, key[pos], amt[pos]) /\ pos' = pos + 1
  /\ UNCHANGED <<key, amt, word>>
NextWord == /\ pos = Dim + 1 /\ key = [i \in 1..Dim |-> 0] /\ amt = [i \in 1..Dim |-> 0]
            /\ word < Mod2(Width) - 1 /\ word' = word + 1
            /\ UNCHANGED <<key, amt, pos, acc>>
Next == Rotate \/ NextWord
Spec == Init /\ [][Next]_vars

RECURSIVE Sum(_)
Sum(i) == IF i = 0 THEN 0 ELSE (key[i] * amt[i]) + Sum(i - 1)
Turned == acc = Turn(Table, Sum(pos - 1) % (2 * N))
SmallDigits == \A i \in 1..Levels : OptDigits(word)[i] \in (-(2 ^ (Base - 1)))..(2 ^ (Base - 1))
Close == Dist(Recompose(OptDigits(word), 1, word), word) * 2 <= 2 ^ (Width - Keep)
=============================================================================
