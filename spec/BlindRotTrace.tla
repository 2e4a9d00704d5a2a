--------------------------- MODULE BlindRotTrace ---------------------------
(* C03.  Blind rotations and bootstrappings of the real library.  The       *)
(* rotation amount is computed here from the raw input words and the key.   *)
EXTENDS TraceBase, Levels, Ring

VARIABLE keys

Key == /\ Is("key")
       /\ Chk(<<"key length", Ev.lvl>>, Len(Ev.vals) = Lv(Ev.lvl).n)
       /\ keys' = [keys EXCEPT ![Ev.lvl] = Ev.vals]
Coef == /\ Is("coef")
        /\ Chk(<<"ring phase", Ev.lvl, Ev.j>>, RingPhase(Ev.a, Ev.b, keys[Ev.lvl], Ev.j, Lv(Ev.lvl).w) = Ev.ph)
        /\ UNCHANGED keys
Same == Is("same") /\ Chk(<<"same", Ev.what>>, Ev.ok) /\ UNCHANGED keys

NBit(lvl) == IF lvl = "lvl1" THEN 10 ELSE 11
BitsFor(outs) == CHOOSE b \in 0..10 : 2 ^ b >= outs /\ (b = 0 \/ 2 ^ (b - 1) < outs)

(* how far the table turns: in grid units of 2^bw out of 2N                  *)
Amount(in, key, nbit, bw) ==
  LET w == Width(in[1])
      g == 1 + nbit - bw                 \* bits of the coarse grid
      half == Pow2(w - g - 1, w \div 16)
      up(x) == Top(Add(x, half), g)
      n == Len(key)
      mask == FoldLeft(LAMBDA acc, i : acc + (up(in[i]) * key[i]), 0, [i \in 1..n |-> i])
      body == Top(in[n + 1], g)
  IN  ((mask - body) * 2 ^ bw) % (2 ^ (nbit + 1))

(* one external product per input coefficient; half of the messages are one  *)
Sig == [ lvl1 |-> [row |-> 181, round |-> 121, u |-> 10],
         lvl2 |-> [row |-> 148, round |-> 171, u |-> 24] ]
Tol(lv, dom) ==
  LET g == Sig[lv]
      n == Lv(dom).n
  IN  Shl(OfNat(7 * ISqrt((n * g.row * g.row) + ((n \div 2) * g.round * g.round)), Limbs(lv)), g.u)

Rotate == /\ Is("rotate")
          /\ Chk("size", Len(Ev.in) = Lv(Ev.dom).n + 1 /\ Len(Ev.r) = Lv(Ev.lvl).n)
          /\ \E x \in {Amount(Ev.in, keys[Ev.dom], NBit(Ev.lvl), BitsFor(Ev.outs))}, t \in {Tol(Ev.lvl, Ev.dom)} :
                 \A j \in 0..(Len(Ev.tv) - 1) :
                   Chk(<<"rotated table", Ev.dom, Ev.lvl, Ev.what, "amount", x, "coefficient", j>>,
                       Near(Ev.r[j + 1], XaiAt(Ev.tv, x, j, Neg), t))
          /\ UNCHANGED keys
Lut == /\ Is("lut")
       /\ Chk("outputs", Len(Ev.c) = Ev.outs)
       /\ \E x \in {Amount(Ev.in, keys[Ev.dom], NBit(Ev.lvl), BitsFor(Ev.outs))}, t \in {Tol(Ev.lvl, Ev.dom)} :
              \A o \in 1..Ev.outs :
                Chk(<<"table entry", Ev.dom, Ev.lvl, Ev.what, "amount", x, "output", o>>,
                    Near(Phase(Ev.c[o], keys[Ev.lvl], Lv(Ev.lvl).w), XaiAt(Ev.tv, x, o - 1, Neg), t))
       /\ UNCHANGED keys
(* bootstrapping to +-mu by the sign of the phase, output noise below an     *)
(* eighth of mu at the bootstrapped level, a half after a key switch down    *)
Sign == /\ Is("sign")
        /\ LET w == Lv(Ev.lvl).w
               t == IF Ev.lvl \in {"lvl0", "lvlhalf"} THEN Pow2(w - 4, w \div 16) ELSE Pow2(w - 7, w \div 16)
           IN  /\ Chk(<<"harness: phase away from the sign changes", Ev.in>>, Le(Pow2(w - 4, w \div 16), Abs(Ev.in))
                        /\ Le(Abs(Ev.in), Sub(Pow2(w - 1, w \div 16), Pow2(w - 4, w \div 16))))
               /\ Chk(<<"sign bootstrapping", Ev.lvl, Ev.what, Ev.in, Ev.out>>,
                      Near(Ev.out, IF IsNeg(Ev.in) THEN Neg(Ev.mu) ELSE Ev.mu, t))
        /\ UNCHANGED keys

Init == TraceInit /\ keys = [n \in DOMAIN LevelTable |-> <<>>]
Next == Key \/ Coef \/ Same \/ Rotate \/ Lut \/ Sign
Spec == Init /\ [][Next]_<<l, keys>>
=============================================================================
