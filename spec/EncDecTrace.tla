---------------------------- MODULE EncDecTrace ----------------------------
(* C01.  Encryptions and decryptions of the real library.  The key of each  *)
(* level is a state variable filled by "key" lines; phases of samples are   *)
(* computed here from the raw ciphertext and that key.                      *)
EXTENDS TraceBase, Levels

VARIABLE keys  \* level name -> sequence of small integers

Key == /\ Is("key")
       /\ Chk(<<"key length", Ev.lvl>>, Len(Ev.vals) = Lv(Ev.lvl).n)
       /\ keys' = [keys EXCEPT ![Ev.lvl] = Ev.vals]

(* fresh sample of the encoding m; dec is the library's Boolean decryption,  *)
(* ph its phase function                                                    *)
Sample ==
  /\ Is("sample")
  /\ LET p == Phase(Ev.c, keys[Ev.lvl], Lv(Ev.lvl).w)
     IN  /\ Chk(<<"sample length", Ev.lvl>>, Len(Ev.c) = Lv(Ev.lvl).n + 1)
         /\ Chk(<<"fresh phase", Ev.lvl, Ev.what, p, Ev.m>>, Near(p, Ev.m, MaxNoise(Ev.lvl)))
         /\ Chk(<<"phase function", Ev.lvl, Ev.what>>, Ev.ph = p)
         /\ Chk(<<"Boolean decryption", Ev.lvl, Ev.what, p>>,
                p \in {Zero(Limbs(Ev.lvl)), Pow2(Lv(Ev.lvl).w - 1, Limbs(Ev.lvl))} \/ (Ev.dec = 1 <=> ~IsNeg(p)))
  /\ UNCHANGED keys

(* one coefficient of the harness's reference ring phase, recomputed *)
Coef ==
  /\ Is("coef")
  /\ Chk(<<"ring phase", Ev.lvl, Ev.j>>,
         Near(RingPhase(Ev.a, Ev.b, keys[Ev.lvl], Ev.j, Lv(Ev.lvl).w), Ev.ph, Zero(Limbs(Ev.lvl))))
  /\ UNCHANGED keys

(* encrypted with standard deviation zero *)
Noiseless ==
  /\ Is("noiseless")
  /\ Chk(<<"no noise", Ev.lvl>>, Sub(Ev.c[Len(Ev.c)], Dot(Ev.c, keys[Ev.lvl], Len(Ev.c) - 1, Len(Ev.m[1]))) = Ev.m[1])
  /\ UNCHANGED keys

(* errors of many fresh encryptions *)
Noise ==
  /\ Is("noise")
  /\ Chk(<<"noise bound", Ev.lvl, Ev.what>>, NoiseMax(Ev.d, Lv(Ev.lvl).max))
  /\ Chk(<<"noise standard deviation", Ev.lvl, Ev.what>>, NoiseShape(Ev.d, Lv(Ev.lvl).thr))
  /\ Chk(<<"noise mean", Ev.lvl, Ev.what>>, NoiseCentred(Ev.d))
  /\ UNCHANGED keys

(* Boolean decryption of ciphertexts with given phases *)
BoolDec ==
  /\ Is("booldec")
  /\ \A i \in 1..Len(Ev.ph) :
       LET p == Ev.ph[i] IN
       Chk(<<"nearest bit", Ev.lvl, Ev.what, p>>,
           p = Zero(Len(p)) \/ p = Pow2(16 * Len(p) - 1, Len(p)) \/ (Ev.out[i] = 1 <=> ~IsNeg(p)))
  /\ UNCHANGED keys

(* Integer decryption, message space of pm values spread over the torus:     *)
(* out * 2^w / pm is the multiple nearest to the phase (either one on a tie, *)
(* or within tol of a tie).                                                 *)
Ext(p) == p \o <<0>>
TopLimb(x) == x[Len(x)]
(* floor((pm * (phase + t) + 2^(w-1)) / 2^w) mod pm, t signed *)
NearestInt(p, pm, t, neg) ==
  LET n == Len(p)
      x == Add(MulC(Ext(p), pm), Pow2(16 * n - 1, n + 1))
      y == MulC(Ext(t), pm)
      z == IF neg THEN Sub(x, y) ELSE Add(x, y)
  IN  (IF TopLimb(z) >= 32768 THEN TopLimb(z) - 65536 ELSE TopLimb(z)) % pm
IntDec ==
  /\ Is("intdec")
  /\ \A i \in 1..Len(Ev.ph) :
       LET p == Ev.ph[i]
           t == Ev.tol
           ok == {NearestInt(p, Ev.pm, t, FALSE), NearestInt(p, Ev.pm, t, TRUE)}
       IN  Chk(<<"nearest integer", Ev.lvl, Ev.what, Ev.pm, p, Ev.out[i]>>, (Ev.out[i] % Ev.pm) \in ok)
  /\ UNCHANGED keys

(* Integer decryption with a padded encoding: message x at x * 2^sh, the    *)
(* message space does not fill the torus.  mid: integers the phases were    *)
(* built from, off: words with |off| < 2^(sh-1) - tol                       *)
PadDec ==
  /\ Is("paddec")
  /\ \A i \in 1..Len(Ev.ph) :
       LET n == Len(Ev.ph[i])
           enc == Shl(OfNat(Ev.mid[i], n), Ev.sh)
       IN  /\ Chk(<<"harness: phase in range", i>>, Lt(Abs(Sub(Ev.ph[i], enc)), Pow2(Ev.sh - 1, n)))
           /\ Chk(<<"nearest padded integer", Ev.lvl, Ev.what, Ev.ph[i], Ev.mid[i], Ev.out[i]>>, Ev.out[i] = Ev.mid[i])
  /\ UNCHANGED keys

(* messages in, messages out (both reduced to the message space) *)
RoundTrip ==
  /\ Is("roundtrip")
  /\ Chk(<<"length", Ev.lvl, Ev.what>>, Len(Ev.in) = Len(Ev.out))
  /\ \A i \in 1..Len(Ev.in) : Chk(<<"round trip", Ev.lvl, Ev.what, i, Ev.in[i], Ev.out[i]>>, Ev.in[i] = Ev.out[i])
  /\ UNCHANGED keys

(* a ring ciphertext: encodings m, reference phase ph *)
Ring ==
  /\ Is("ring")
  /\ Chk(<<"ring size", Ev.lvl>>, Len(Ev.ph) = Lv(Ev.lvl).n /\ Len(Ev.m) = Lv(Ev.lvl).n)
  /\ \A i \in 1..Len(Ev.ph) :
       Chk(<<"ring coefficient", Ev.lvl, Ev.what, i, Ev.ph[i], Ev.m[i]>>, Near(Ev.ph[i], Ev.m[i], Ev.tol))
  /\ UNCHANGED keys

(* row (comp, i) of a gadget ciphertext of the sparse polynomial p (a        *)
(* sequence of <<exponent, coefficient>>): its phase is p * 2^(w - i*Bgbit)  *)
(* for the last component and -p * s * 2^(w - i*Bgbit) for the others        *)
SparseAt(p, j) == FoldLeft(LAMBDA acc, x : IF x[1] = j THEN acc + x[2] ELSE acc, 0, p)
SparseTimesKey(p, key, j) ==
  LET n == Len(key)
      at(e) == IF j >= e THEN key[j - e + 1] ELSE -key[n + j - e + 1]
  IN  FoldLeft(LAMBDA acc, x : acc + (x[2] * at(x[1])), 0, p)
Row ==
  /\ Is("row")
  /\ LET lv == Lv(Ev.lvl)  n == lv.w \div 16  s == lv.w - (Ev.i * Ev.bgbit)
     IN  \A j \in 0..(lv.n - 1) :
           LET x == IF Ev.body THEN SparseAt(Ev.p, j) ELSE -SparseTimesKey(Ev.p, keys[Ev.lvl], j)
           IN  Chk(<<"gadget row", Ev.lvl, Ev.what, Ev.i, Ev.body, j>>, Near(Ev.ph[j + 1], Shl(OfInt(x, n), s), Ev.tol))
  /\ UNCHANGED keys

Init == TraceInit /\ keys = [n \in DOMAIN LevelTable |-> <<>>]
Next == Key \/ Sample \/ Noiseless \/ Coef \/ Noise \/ BoolDec \/ IntDec \/ PadDec \/ RoundTrip \/ Ring \/ Row
Spec == Init /\ [][Next]_<<l, keys>>
=============================================================================
