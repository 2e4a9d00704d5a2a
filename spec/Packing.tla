------------------------------ MODULE Packing ------------------------------
(***************************************************************************)
(* Model of the automorphism layer over integers modulo Q: annihilation    *)
(* and packing are built from three steps - halve every word (a floor, so  *)
(* the halved phase is only known modulo Q/2), apply an automorphism with  *)
(* a key switch (fresh mask), add.  Whatever the masks, keys and phases,   *)
(* the unknown top bits cancel and each coefficient ends up where the       *)
(* packing order puts it.                                                  *)
(***************************************************************************)
EXTENDS Ring, FiniteSets, TLC

CONSTANTS N, LogN, Q, InMasks, KsMasks, Phases, Keys, Mode, Up
Bit == {0, 1}
Ternary == {-1, 0, 1}
ASSUME N = 2 ^ LogN
NegQ(x) == (-x) % Q
T(f) == SubSeq(f, 1, N)
AddP(p, q) == T([i \in 1..N |-> (p[i] + q[i]) % Q])
SubP(p, q) == T([i \in 1..N |-> (p[i] - q[i]) % Q])
X(p, a) == T(MulXai(p, a, NegQ))
RECURSIVE MulFrom(_, _, _)
MulFrom(p, q, i) == IF i = 0 THEN T([j \in 1..N |-> 0])
                    ELSE LET x == X(p, i - 1) IN AddP(MulFrom(p, q, i - 1), T([j \in 1..N |-> (q[i] * x[j]) % Q]))
Mul(p, q) == MulFrom(p, q, N)
Auto(p, d) ==   \* coefficient i goes to i*d
  LET src(j) == CHOOSE i \in 0..(N - 1) : (i * d) % N = j
  IN  T([j \in 1..N |-> LET i == src(j - 1) IN IF ((i * d) % (2 * N)) < N THEN p[i + 1] ELSE NegQ(p[i + 1])])
Vec(S) == {T(f) : f \in [1..N -> S]}
Konst(v) == T([i \in 1..N |-> IF i = 1 THEN v ELSE 0])

VARIABLES key, cts, want, level
vars == <<key, cts, want, level>>

Ct(a, ph) == [a |-> a, b |-> AddP(ph, Mul(a, key))]
Ph(c) == SubP(c.b, Mul(c.a, key))
Half(c) == [a |-> T([i \in 1..N |-> c.a[i] \div 2]), b |-> T([i \in 1..N |-> c.b[i] \div 2])]
AddC(c, d) == [a |-> AddP(c.a, d.a), b |-> AddP(c.b, d.b)]
SubC(c, d) == [a |-> SubP(c.a, d.a), b |-> SubP(c.b, d.b)]
MulC(c, e) == [a |-> X(c.a, e), b |-> X(c.b, e)]
KsAuto(c, d, m) == Ct(m, Auto(Ph(c), d))

(* Annihilation of one arbitrary ring sample.  The order of the             *)
(* automorphisms matters: step t uses 2^t + 1 and settles the odd multiples *)
(* of N/2^t, which all later steps leave in place.  In the opposite order   *)
(* (N + 1 first) the later automorphisms permute coefficients that are      *)
(* already zero, and the unknown top bits of two different coefficients do  *)
(* not cancel: TLC finds a half turn at an odd position (set Up = FALSE).   *)
InitAnnihilate == /\ key \in Vec(Keys)
                  /\ \E a \in Vec(InMasks), p \in Vec(Phases) : want = p /\ cts = <<Ct(a, p)>>
                  /\ level = 0
Annihilate == /\ level < LogN
              /\ \E m \in Vec(KsMasks) :
                   LET h == Half(cts[1]) IN cts' = <<AddC(h, KsAuto(h, 2 ^ (IF Up THEN level + 1 ELSE LogN - level) + 1, m))>>
              /\ level' = level + 1 /\ UNCHANGED <<key, want>>

(* packing of samples, embedded at coefficient 0 with anything elsewhere;   *)
(* want is the list of their phases.  Level t combines the sub-packings of  *)
(* even and odd indices, the sub-packing at offset o and level t being       *)
(* cts[o + 1]                                                              *)
Lists == UNION {[1..k -> Phases] : k \in 1..N}
NoCt == [a |-> T([i \in 1..N |-> 0]), b |-> T([i \in 1..N |-> 0])]
InitPack == /\ key \in Vec(Keys)
            /\ \E p \in Lists, a \in Vec(InMasks), j \in Vec(Phases) :
                 /\ want = p
                 (* junk j in the other coefficients of the embedded sample *)
                 /\ cts = [i \in 1..N |-> IF i <= Len(p) THEN Ct(a, T([x \in 1..N |-> IF x = 1 THEN p[i] ELSE j[x]])) ELSE NoCt]
            /\ level = 0
Pack == /\ level < LogN
        /\ LET lv == level + 1   \* combining into sub-packings of 2^lv samples
               half == N \div (2 ^ lv)
           IN  \E m \in Vec(KsMasks) :
                 cts' = [o \in 1..half |->
                          IF o > Len(want) THEN NoCt
                          ELSE LET t == Half(cts[o])
                                   u == Half(MulC(cts[o + half], N \div (2 ^ lv)))
                               IN  AddC(AddC(t, u), KsAuto(SubC(t, u), 2 ^ lv + 1, m))]
        /\ level' = level + 1 /\ UNCHANGED <<key, want>>

Init == IF Mode = "annihilate" THEN InitAnnihilate ELSE InitPack
Next == IF Mode = "annihilate" THEN Annihilate ELSE Pack
Spec == Init /\ [][Next]_vars

(* rounding: one unit per word and step, times the key                       *)
RECURSIVE Norm(_)
Norm(i) == IF i = 0 THEN 1 ELSE Norm(i - 1) + (IF key[i] < 0 THEN -key[i] ELSE key[i])
Near(x, y) == LET d == (x - y) % Q IN (IF d < Q - d THEN d ELSE Q - d) <= level * Norm(N)

Annihilated == Mode = "annihilate" =>
   LET p == Ph(cts[1])
   IN  /\ Near(p[1], want[1])
       /\ \A j \in 1..(N - 1) : IF level = LogN \/ (Up /\ j % (N \div (2 ^ level)) = 0) THEN Near(p[j + 1], 0) ELSE TRUE
(* in a partial packing of 2^level samples only the multiples of the step     *)
(* are settled; at the end, all coefficients are                             *)
Packed == Mode = "pack" =>
   LET step == N \div (2 ^ level)
   IN  \A o \in 1..step :
         LET p == Ph(cts[o])
         IN  \A j \in 0..(2 ^ level - 1) :
               LET src == (o - 1) + j * step   \* index in the list
               IN  Near(p[j * step + 1], IF src < Len(want) THEN want[src + 1] ELSE 0)
=============================================================================
