------------------------------- MODULE Words -------------------------------
(***************************************************************************)
(* Torus words.  The library represents a torus element by an unsigned     *)
(* machine word of 16, 32 or 64 bits, with wrap-around arithmetic.  TLC's  *)
(* integers have 32 bits, so a word is a sequence of 16-bit limbs, least   *)
(* significant first: 1, 2 or 4 limbs.  Every operator is total on         *)
(* well-formed words of equal length.  WordsMC.tla checks these operators  *)
(* against integer arithmetic with a small limb base.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

B == 65536

Width(a) == 16 * Len(a)

IsWord(a, n) == Len(a) = n /\ \A i \in 1..n : a[i] \in 0..(B - 1)

(* TLC evaluates function constructors lazily, at every application; a     *)
(* word is always made a tuple                                             *)
Tup(f, n) == SubSeq(f, 1, n)
Zero(n) == IF n = 4 THEN <<0, 0, 0, 0>> ELSE IF n = 2 THEN <<0, 0>> ELSE Tup([i \in 1..n |-> 0], n)

(* any number of limbs, carrying limb by limb *)
Idx(a) == [i \in 1..Len(a) |-> i]
GenAdd(a, b) == FoldLeft(LAMBDA r, i : LET s == a[i] + b[i] + r.c IN [c |-> s \div B, v |-> Append(r.v, s % B)],
                         [c |-> 0, v |-> <<>>], Idx(a)).v
GenSub(a, b) == FoldLeft(LAMBDA r, i : LET s == a[i] - b[i] + r.c IN [c |-> s \div B, v |-> Append(r.v, s % B)],
                         [c |-> 0, v |-> <<>>], Idx(a)).v
GenMul(a, m) == FoldLeft(LAMBDA r, i : LET s == a[i] * m + r.c IN [c |-> s \div B, v |-> Append(r.v, s % B)],
                         [c |-> 0, v |-> <<>>], Idx(a)).v

Add(a, b) ==
  CASE Len(a) = 1 -> <<(a[1] + b[1]) % B>>
    [] Len(a) = 2 -> LET x == a[1] + b[1]
                     IN  <<x % B, (a[2] + b[2] + x \div B) % B>>
    [] Len(a) # 4 -> GenAdd(a, b)
    [] OTHER      -> LET x == a[1] + b[1]
                         y == a[2] + b[2] + x \div B
                         z == a[3] + b[3] + y \div B
                     IN  <<x % B, y % B, z % B, (a[4] + b[4] + z \div B) % B>>

(* a - b; % of a negative integer is non-negative in TLA+ *)
Sub(a, b) ==
  CASE Len(a) = 1 -> <<(a[1] - b[1]) % B>>
    [] Len(a) = 2 -> LET x == a[1] - b[1]
                     IN  <<x % B, (a[2] - b[2] + x \div B) % B>>
    [] Len(a) # 4 -> GenSub(a, b)
    [] OTHER      -> LET x == a[1] - b[1]
                         y == a[2] - b[2] + x \div B
                         z == a[3] - b[3] + y \div B
                     IN  <<x % B, y % B, z % B, (a[4] - b[4] + z \div B) % B>>

Neg(a) == Sub(Zero(Len(a)), a)

(* c in -32767..32767 *)
MulC(a, c) ==
  IF c < 0
  THEN LET m == -c IN
       CASE Len(a) = 1 -> Neg(<<(a[1] * m) % B>>)
         [] Len(a) = 2 -> LET x == a[1] * m
                          IN  Neg(<<x % B, (a[2] * m + x \div B) % B>>)
         [] Len(a) # 4 -> Neg(GenMul(a, m))
         [] OTHER      -> LET x == a[1] * m
                              y == a[2] * m + x \div B
                              z == a[3] * m + y \div B
                          IN  Neg(<<x % B, y % B, z % B, (a[4] * m + z \div B) % B>>)
  ELSE CASE Len(a) = 1 -> <<(a[1] * c) % B>>
         [] Len(a) = 2 -> LET x == a[1] * c
                          IN  <<x % B, (a[2] * c + x \div B) % B>>
         [] Len(a) # 4 -> GenMul(a, c)
         [] OTHER      -> LET x == a[1] * c
                              y == a[2] * c + x \div B
                              z == a[3] * c + y \div B
                          IN  <<x % B, y % B, z % B, (a[4] * c + z \div B) % B>>

(* unsigned order *)
RECURSIVE LtFrom(_, _, _)
LtFrom(a, b, i) == IF i = 0 THEN FALSE
                   ELSE IF a[i] # b[i] THEN a[i] < b[i]
                   ELSE LtFrom(a, b, i - 1)
Lt(a, b) == LtFrom(a, b, Len(a))
Le(a, b) == ~Lt(b, a)

TopBit(a) == a[Len(a)] \div 32768
IsNeg(a)  == a[Len(a)] >= 32768

(* distance to zero on the circle *)
Abs(a) == IF IsNeg(a) THEN Neg(a) ELSE a

(* |a - b| <= e on the circle; e a word *)
Near(a, b, e) == Le(Abs(Sub(a, b)), e)

(* 2^k as a word of n limbs, 0 <= k < 16 n *)
P2(k) == 2 ^ k
Pow2(k, n) == Tup([i \in 1..n |-> IF k \div 16 = i - 1 THEN P2(k % 16) ELSE 0], n)

(* small non-negative integer (< 2^31) as a word of n limbs *)
OfNat(v, n) == Tup([i \in 1..n |-> IF i = 1 THEN v % B ELSE IF i = 2 THEN (v \div B) % B ELSE 0], n)
OfInt(v, n) == IF v < 0 THEN Neg(OfNat(-v, n)) ELSE OfNat(v, n)

(* logical shifts by k bits, 0 <= k < 16 n *)
Shr(a, k) == LET q == k \div 16  r == k % 16
                 At(i) == IF i > Len(a) THEN 0 ELSE a[i]
             IN  Tup([i \in 1..Len(a) |->
                    (At(i + q) \div P2(r)) + ((At(i + q + 1) % P2(r)) * P2(16 - r))], Len(a))
Shl(a, k) == LET q == k \div 16  r == k % 16
                 At(i) == IF i < 1 THEN 0 ELSE a[i]
             IN  Tup([i \in 1..Len(a) |->
                    ((At(i - q) % P2(16 - r)) * P2(r)) + (At(i - q - 1) \div P2(16 - r))], Len(a))

(* low k bits (k <= 30) and top k bits (k <= 30) as integers *)
Low2(a)  == a[1] + (IF Len(a) > 1 THEN (a[2] % 16384) * B ELSE 0)
Top(a, k) == LET s == Shr(a, 16 * Len(a) - k) IN s[1] + (IF Len(a) > 1 THEN s[2] * B ELSE 0)

(* Change of representation with rounding, as the library does it when it   *)
(* moves a torus element to a narrower or a wider word.                    *)
Resize(a, n) ==
  LET m == Len(a)
  IN  IF n = m THEN a
      ELSE IF n > m THEN Tup([i \in 1..n |-> IF i <= n - m THEN 0 ELSE a[i - (n - m)]], n)
      ELSE LET r == Add(a, Pow2(16 * (m - n) - 1, m))
           IN  Tup([i \in 1..n |-> r[i + (m - n)]], n)

(* sums of sequences of words of n limbs *)
SumSeq(seq, n) == FoldLeft(Add, Zero(n), seq)

(* sum of a[i] * s[i] with a a sequence of words, s a sequence of small     *)
(* integers (a secret key), over the first n positions                     *)
Dot(a, s, n, limbs) == SumSeq([i \in 1..n |-> MulC(a[i], s[i])], limbs)
=============================================================================
