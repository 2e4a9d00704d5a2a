-------------------------- MODULE GadgetProdTrace --------------------------
(* C04.  Products and multiplexers of the real library, judged by phases.   *)
(* The harness's phases are bound to the specification by "coef" lines.     *)
EXTENDS TraceBase, Levels, Ring

VARIABLE keys

(* Standard deviations of the error of one external product: from the rows' *)
(* noise (2 l N digits uniform in [-Bg/2, Bg/2)), and, per unit of the      *)
(* message's norm, from the rounding of the decomposition.  Unit 2^u.       *)
Sig == [ lvl1 |-> [row |-> 181, round |-> 121, u |-> 10],
         lvl2 |-> [row |-> 148, round |-> 171, u |-> 24] ]
(* terms products of one message each, squared norm sq in total             *)
Tol(lv, terms, sq) ==
  LET g == Sig[lv]
  IN  Shl(OfNat(7 * ISqrt(terms * g.row * g.row + sq * g.round * g.round) + 8, Limbs(lv)), g.u)

Key == /\ Is("key")
       /\ Chk(<<"key length", Ev.lvl>>, Len(Ev.vals) = Lv(Ev.lvl).n)
       /\ keys' = [keys EXCEPT ![Ev.lvl] = Ev.vals]
Coef == /\ Is("coef")
        /\ Chk(<<"ring phase", Ev.lvl, Ev.j>>, RingPhase(Ev.a, Ev.b, keys[Ev.lvl], Ev.j, Lv(Ev.lvl).w) = Ev.ph)
        /\ UNCHANGED keys

(* coefficient j of p * b, b a sequence of <<exponent, small coefficient>>  *)
SparseAt(p, b, j) == FoldLeft(LAMBDA acc, x : Add(acc, MulC(XaiAt(p, x[1], j, Neg), x[2])), Zero(Len(p[1])), b)
Sq(b) == FoldLeft(LAMBDA acc, x : acc + x[2] * x[2], 0, b)
ExtP == /\ Is("ext")
        /\ LET t == Tol(Ev.lvl, 1, Sq(Ev.b))
           IN  /\ Chk("size", Len(Ev.r) = Lv(Ev.lvl).n /\ Len(Ev.p) = Lv(Ev.lvl).n)
               /\ \A j \in 0..(Len(Ev.p) - 1) :
                    Chk(<<"external product", Ev.lvl, Ev.what, Ev.b, j>>, Near(Ev.r[j + 1], SparseAt(Ev.p, Ev.b, j), t))
        /\ UNCHANGED keys
DenseAt(p, b, j) == SumSeq([i \in 1..Len(p) |-> MulC(XaiAt(p, i - 1, j, Neg), b[i])], Len(p[1]))
Dense == /\ Is("dense")
         /\ LET t == Tol(Ev.lvl, 1, FoldLeft(LAMBDA acc, x : acc + x * x, 0, Ev.b))
            IN  \A i \in 1..Len(Ev.pos) :
                  Chk(<<"external product, dense message", Ev.lvl, Ev.what, Ev.pos[i]>>,
                      Near(Ev.val[i], DenseAt(Ev.p, Ev.b, Ev.pos[i]), t))
         /\ UNCHANGED keys
Cmux == /\ Is("cmux")
        /\ LET t == Tol(Ev.lvl, 1, 1)
               want == IF Ev.bit = 1 THEN Ev.c1 ELSE Ev.c0
           IN  \A j \in 1..Lv(Ev.lvl).n :
                 Chk(<<"multiplexer", Ev.lvl, Ev.what, Ev.bit, j>>, Near(Ev.r[j], want[j], t))
        /\ UNCHANGED keys
(* rotation by a times the key value s: X^(a s) p; every non-zero key value  *)
(* contributes one product                                                   *)
Rot == /\ Is("rot")
       /\ LET n == Lv(Ev.lvl).n
              x == (Ev.a * Ev.s) % (2 * n)
              t == Tol(Ev.lvl, Ev.terms, 2)
          IN  \A j \in 0..(n - 1) :
                Chk(<<"monomial multiplexer", Ev.lvl, Ev.what, Ev.a, Ev.s, j>>, Near(Ev.r[j + 1], XaiAt(Ev.p, x, j, Neg), t))
       /\ UNCHANGED keys
(* the noiseless gadget ciphertext of one changes each component by at most  *)
(* the rounding of the decomposition and of the transform                    *)
One == /\ Is("one")
       /\ LET t == IF Ev.lvl = "lvl1" THEN OfNat(8192 + 16, 2) ELSE Add(Pow2(27, 4), Pow2(24, 4))
          IN  \A j \in 1..Lv(Ev.lvl).n : Chk(<<"gadget one", Ev.what, j>>, Near(Ev.r[j], Ev.c[j], t))
       /\ UNCHANGED keys
Same == Is("same") /\ Chk(<<"same", Ev.what>>, Ev.ok) /\ UNCHANGED keys

Init == TraceInit /\ keys = [n \in DOMAIN LevelTable |-> <<>>]
Next == Key \/ Coef \/ ExtP \/ Dense \/ Cmux \/ Rot \/ One \/ Same
Spec == Init /\ [][Next]_<<l, keys>>
=============================================================================
