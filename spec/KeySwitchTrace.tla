-------------------------- MODULE KeySwitchTrace --------------------------
(* C07.  Key switches of the real library.  Phases of samples are computed  *)
(* here; phases of ring results come from the harness's reference (bound to *)
(* the specification in C01, C03 and C04 by "coef" lines).                  *)
EXTENDS TraceBase, Levels

VARIABLES from, to

Key == /\ Is("key")
       /\ IF Ev.slot = "from" THEN from' = Ev.vals /\ UNCHANGED to ELSE to' = Ev.vals /\ UNCHANGED from
PhaseBy(c, key) == Sub(c[Len(c)], Dot(c, key, Len(key), Len(c[1])))
MaxI(x, y) == IF x > y THEN x ELSE y
Norm1(key) == FoldLeft(LAMBDA acc, x : acc + AbsI(x), 0, key)
(* distance of word x to the nearest multiple of 2^g                         *)
Dist(x, g) ==
  IF g <= 0 THEN Zero(Len(x))
  ELSE LET low == Sub(x, Shl(Shr(x, g), g))
           up == Sub(Pow2(g, Len(x)), low)
       IN  IF Lt(up, low) THEN up ELSE low
(* an error of the words of a at the scale of a word of m >= Len(a) limbs    *)
Widen(a, m) == IF Len(a) = m THEN a ELSE Resize(a, m)
(* sum over lo..hi of |key[i]| times the distance of c[i] to multiples of 2^g *)
Off(c, key, lo, hi, g) == SumSeq([i \in 1..(hi - lo + 1) |-> MulC(Dist(c[lo + i - 1], g), AbsI(key[lo + i - 1]))], Len(c[1]))

(* noiseless keys: the only errors are the rounding to nearest of t digits   *)
(* of every coefficient that meets a nonzero key coefficient, and of the     *)
(* words that are copied into a narrower word                                *)
Exact ==
  /\ Is("exact")
  /\ \E pi \in {PhaseBy(Ev.in, from)}, po \in {PhaseBy(Ev.out, to)} :
       LET m == MaxI(Len(pi), Len(po))
           n == Len(from)
           kept == IF Ev.subset THEN Len(to) ELSE 0
           digits == Off(Ev.in, from, kept + 1, n, 16 * Len(pi) - (Ev.t * Ev.bb))
           drop == 16 * (Len(pi) - Len(po))
           resize == Add(Off(Ev.in, from, 1, kept, drop), Dist(Ev.in[n + 1], drop))
       IN  Chk(<<"noiseless switch", Ev.what, pi, po>>,
               Near(Resize(po, m), Resize(pi, m), Widen(Add(digits, resize), m)))
  /\ UNCHANGED <<from, to>>
Equal == /\ Is("equal")
         /\ Chk(<<"one by one", Ev.what>>, Ev.a = Ev.b)
         /\ UNCHANGED <<from, to>>
Same == Is("same") /\ Chk(<<"same", Ev.what>>, Ev.ok) /\ UNCHANGED <<from, to>>

(* noiseless switches into a ring: phase is f times the source phase; the    *)
(* private ones decompose the body as well, the others copy it               *)
RingEv ==
  /\ Is("ring")
  /\ \E src \in {IF Ev.subset THEN SubSeq(from, 1, Len(to)) ELSE from} :
     \E pi \in {PhaseBy(Ev.in, src)} :
     \E n \in {Len(src)}, g \in {16 * Len(pi) - (Ev.t * Ev.bb)} :
     \E err \in {Add(Off(Ev.in, src, 1, n, g), Dist(Ev.in[n + 1], IF Ev.priv THEN g ELSE 16 * (Len(pi) - Len(Ev.out[1]))))} :
       (\A k \in 1..Len(to) :
         LET M == MaxI(Len(pi), Len(Ev.out[k]))
         IN  Chk(<<"noiseless ring switch", Ev.what, "coefficient", k - 1>>,
                 Near(Resize(Ev.out[k], M), MulC(Resize(pi, M), Ev.f[k]), MulC(Widen(err, M), AbsI(Ev.f[k]))))) = TRUE
  /\ UNCHANGED <<from, to>>

(* real levels: standard deviation of the error in units of 2^u of the       *)
(* target word                                                               *)
Sig == ("10" :> [s |-> 446, u |-> 0, r |-> 0]) @@ ("1h" :> [s |-> 3029, u |-> 10, r |-> 0]) @@ ("11" :> [s |-> 9907, u |-> 0, r |-> 1900])
       @@ ("20" :> [s |-> 630, u |-> 0, r |-> 0]) @@ ("2h" :> [s |-> 4300, u |-> 10, r |-> 0]) @@ ("21" :> [s |-> 15560, u |-> 0, r |-> 2740])
       @@ ("22" :> [s |-> 686, u |-> 20, r |-> 686]) @@ ("31" :> [s |-> 5460, u |-> 10, r |-> 0]) @@ ("s21" :> [s |-> 11010, u |-> 0, r |-> 0])
Switch ==
  /\ Is("switch")
  /\ \E pi \in {PhaseBy(Ev.in, from)}, po \in {PhaseBy(Ev.out, to)} :
       LET g == Sig[Ev.pair]
           m == Len(po)
       IN  Chk(<<"switched phase", Ev.pair, pi, po>>, Near(po, Resize(pi, m), Shl(OfNat(7 * g.s, m), g.u)))
  /\ UNCHANGED <<from, to>>
(* All samples go through one key, and digit -base/2 has no counterpart, so  *)
(* the errors have a mean of their own with each key: its standard deviation *)
(* is sd / (base * sqrt(1 - 1/base)), 0.29 sd for base 4.  The shape is       *)
(* therefore judged around the sample's own mean.                             *)
NoiseEv ==
  /\ Is("noise")
  /\ LET g == Sig[Ev.pair]
         u == IF g.u = 20 THEN 0 ELSE g.u
         sd == g.s * 2 ^ u
     IN  \E mean \in {(FoldLeft(LAMBDA acc, x : acc + (x \div 2 ^ u), 0, Ev.d) \div Len(Ev.d)) * 2 ^ u} :
         \E d \in {[i \in 1..Len(Ev.d) |-> Ev.d[i] - mean]} :
           /\ Chk(<<"switching noise", Ev.pair>>, NoiseShape(d, << <<sd \div 2, 350, 430>>, <<sd, 650, 740>>, <<2 * sd, 935, 975>> >>))
           /\ Chk(<<"switching noise mean", Ev.pair, mean>>, AbsI(mean) <= 2 * sd)
  /\ UNCHANGED <<from, to>>
RingSwitch ==
  /\ Is("ringswitch")
  /\ \E pi \in {Resize(PhaseBy(Ev.in, IF Ev.subset THEN SubSeq(from, 1, Len(to)) ELSE from), Len(Ev.out[1]))} :
     \E tol \in {[q \in 0..3 |-> LET g == Sig[Ev.lvl] IN Shl(OfNat(7 * (g.s + (q * g.r)), Len(pi)), g.u)]} :
       \A k \in 1..Len(to) :
         Chk(<<"ring switch", Ev.what, Ev.lvl, "coefficient", k>>,
             Near(Ev.out[k], MulC(pi, Ev.f[k]), tol[AbsI(Ev.f[k])]))
  /\ UNCHANGED <<from, to>>

Init == TraceInit /\ from = <<>> /\ to = <<>>
Next == Key \/ Exact \/ Equal \/ Same \/ RingEv \/ Switch \/ NoiseEv \/ RingSwitch
Spec == Init /\ [][Next]_<<l, from, to>>
=============================================================================
