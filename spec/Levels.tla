------------------------------- MODULE Levels -------------------------------
(***************************************************************************)
(* The documented security levels of the default parameter set: word       *)
(* width, dimension, secret value set and fresh-noise distribution.  The   *)
(* trace specifications judge the library against this table, not against  *)
(* numbers the library reports about itself.                               *)
(***************************************************************************)
EXTENDS Words

LevelTable ==
  [ lvl0    |-> [w |-> 16, n |-> 636,  key |-> {0, 1},     mu |-> 13, thr |-> <<<<3, 370, 500>>, <<6, 670, 760>>, <<12, 945, 975>>>>, max |-> 46],
    lvlhalf |-> [w |-> 32, n |-> 760,  key |-> {0, 1},     mu |-> 29, thr |-> <<<<16384, 383, 383>>, <<32768, 683, 683>>, <<65536, 954, 955>>>>, max |-> 240000],
    lvl1    |-> [w |-> 32, n |-> 1024, key |-> {-1, 0, 1}, mu |-> 29, thr |-> <<<<64, 375, 390>>, <<128, 675, 690>>, <<256, 950, 957>>>>, max |-> 960],
    lvl2    |-> [w |-> 64, n |-> 2048, key |-> {-1, 0, 1}, mu |-> 61, thr |-> <<<<65536, 380, 385>>, <<131072, 680, 685>>, <<262144, 953, 956>>>>, max |-> 970000],
    lvl3    |-> [w |-> 64, n |-> 8192, key |-> {-1, 0, 1}, mu |-> 61, thr |-> <<<<65536, 380, 385>>, <<131072, 680, 685>>, <<262144, 953, 956>>>>, max |-> 970000] ]

Lv(name) == LevelTable[name]
Limbs(name) == Lv(name).w \div 16
Mu(name) == Pow2(Lv(name).mu, Limbs(name))
MaxNoise(name) == OfNat(Lv(name).max, Limbs(name))

(* floor of the square root, bit by bit; n < 2^30 *)
ISqrt(n) == FoldLeft(LAMBDA r, b : IF (r + b) * (r + b) <= n THEN r + b ELSE r, 0,
                     <<16384, 8192, 4096, 2048, 1024, 512, 256, 128, 64, 32, 16, 8, 4, 2, 1>>)

Count(s, P(_)) == FoldLeft(LAMBDA acc, x : IF P(x) THEN acc + 1 ELSE acc, 0, s)
AbsI(x) == IF x < 0 THEN -x ELSE x

(* Is the sequence d of errors (integers in units of the last bit) a sample *)
(* of the level's centred Gaussian?  Three quantiles within six standard    *)
(* deviations of a binomial count, balanced signs, and a hard maximum.      *)
NoiseShape(d, thr) ==
  LET n == Len(d)
      slack == (3000 \div ISqrt(n)) + 1
  IN  \A i \in 1..Len(thr) :
        LET c == Count(d, LAMBDA x : AbsI(x) <= thr[i][1])
        IN  /\ c * 1000 >= (thr[i][2] - slack) * n
            /\ c * 1000 <= (thr[i][3] + slack) * n
NoiseCentred(d) ==
  LET n == Len(d)
      p == Count(d, LAMBDA x : x > 0)
      m == Count(d, LAMBDA x : x < 0)
  IN  AbsI(p - m) <= 6 * ISqrt(n) + 6
NoiseMax(d, max) == \A i \in 1..Len(d) : AbsI(d[i]) <= max

(* phase of a sample (mask words, then body) under a key of small integers  *)
Phase(c, key, w) ==
  Sub(c[Len(c)], Dot(c, key, Len(key), w \div 16))

(* coefficient j (0-based) of the phase of the ring sample (a, b), degree n *)
RingPhase(a, bj, key, j, w) ==
  LET n == Len(key)
      m == w \div 16
      term(i) == IF i <= j + 1 THEN MulC(a[i], key[j - i + 2])
                 ELSE MulC(a[i], -key[n + j - i + 2])
  IN  Sub(bj, SumSeq([i \in 1..n |-> term(i)], m))
=============================================================================
