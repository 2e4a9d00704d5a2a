----------------------------- MODULE ModularTrace -----------------------------
(***************************************************************************)
(* C18.  The field operations and transforms of the real library, against   *)
(* integer arithmetic on limbs.  A quotient that comes with an event is a   *)
(* hint only: the identity it takes part in determines the remainder.       *)
(***************************************************************************)
EXTENDS TraceBase, Words
VARIABLES x    \* the last transformed vector
vars == <<l, x>>

PW == <<1, 0, 65535, 65535>>          \* 2^64 - 2^32 + 1
RP == 655360001                       \* 5^4 2^20 + 1
RPW == <<1, 10000>>                   \* the same in limbs
Ext(a, n) == Tup([i \in 1..n |-> IF i <= Len(a) THEN a[i] ELSE 0], n)
SExt(a, n) == Tup([i \in 1..n |-> IF i <= Len(a) THEN a[i] ELSE IF IsNeg(a) THEN 65535 ELSE 0], n)
Up(a, k, n) == Tup([i \in 1..n |-> IF i > k /\ i <= k + Len(a) THEN a[i - k] ELSE 0], n)

(* product of two words, exactly: by bytes, column by column                 *)
Bytes(a) == Tup([i \in 1..(2 * Len(a)) |-> IF i % 2 = 1 THEN a[(i + 1) \div 2] % 256 ELSE a[i \div 2] \div 256], 2 * Len(a))
Ixs == [k \in 0..16 |-> [i \in 1..k |-> i]]
Col(a, b, k) == FoldLeft(LAMBDA s, i : IF k - i >= 1 /\ k - i <= Len(b) THEN s + (a[i] * b[k - i]) ELSE s, 0, Ixs[Len(a)])
MulBytes(a, b) ==
  FoldLeft(LAMBDA r, k : LET s == Col(a, b, k + 1) + r.c IN [c |-> s \div 256, v |-> Append(r.v, s % 256)],
           [c |-> 0, v |-> <<>>], [k \in 1..(Len(a) + Len(b)) |-> k]).v
MulW(a, b) ==
  LET v == MulBytes(Bytes(a), Bytes(b))
      n == Len(a) + Len(b)
  IN  Tup([i \in 1..n |-> v[(2 * i) - 1] + (256 * v[2 * i])], n)

(* q P + r in n limbs                                                        *)
QP(q, r, n) == Add(Sub(Up(q, 4, n), Up(q, 2, n)), Add(Ext(q, n), Ext(r, n)))
Field(a) == Lt(a, PW)
PlusOK(a, b, r) == LET s == Add(Ext(a, 5), Ext(b, 5)) IN Field(r) /\ (s = Ext(r, 5) \/ s = Add(Ext(r, 5), Ext(PW, 5)))
MinusOK(a, b, r) == PlusOK(b, r, a)
MulOK(a, b, q, r) == Field(r) /\ MulW(a, b) = QP(q, r, 8)

FieldOps ==
  /\ Is("field")
  /\ (\A i \in 1..Len(Ev.a) : Chk(<<Ev.op, Ev.a[i], Ev.b[i], "gives", Ev.r[i]>>,
        CASE Ev.op = "add" -> PlusOK(Ev.a[i], Ev.b[i], Ev.r[i])
          [] Ev.op = "sub" -> Field(Ev.r[i]) /\ MinusOK(Ev.a[i], Ev.b[i], Ev.r[i])
          [] OTHER -> MulOK(Ev.a[i], Ev.b[i], Ev.q[i], Ev.r[i]))) = TRUE
  /\ (\A i \in 1..Len(Ev.a) : Chk(<<Ev.op, "and assignment", Ev.a[i], Ev.b[i], "gives", Ev.r2[i]>>, Ev.r2[i] = Ev.r[i])) = TRUE
  /\ UNCHANGED x
Make == /\ Is("make")
        /\ (\A i \in 1..Len(Ev.a) : Chk(<<"residue of the word", Ev.a[i], "gives", Ev.r[i]>>,
              Field(Ev.r[i]) /\ (Ev.a[i] = Ev.r[i] \/ Ext(Ev.a[i], 5) = Add(Ext(Ev.r[i], 5), Ext(PW, 5))))) = TRUE
        /\ UNCHANGED x
(* every shift of one value: each is the double of the one before, and after *)
(* 192 doublings the value is back                                           *)
Shift == /\ Is("shift")
         /\ Chk("number of shifts", Len(Ev.r) = 192)
         /\ Chk(<<"shift by zero", Ev.a>>, Ev.r[1] = Ev.a)
         /\ (\A i \in 1..192 : Chk(<<"shift of", Ev.a, "by", i - 1, Ev.r[i], "and by one more", Ev.r[(i % 192) + 1]>>,
               PlusOK(Ev.r[i], Ev.r[i], Ev.r[(i % 192) + 1]))) = TRUE
         /\ UNCHANGED x
(* 2 / 2^n = 1 / 2^(n-1)                                                     *)
Halves == /\ Is("halves")
          /\ (\A n \in 1..31 : Chk(<<"inverse of a power of two", n, Ev.r[n]>>,
                PlusOK(Ev.r[n], Ev.r[n], IF n = 1 THEN <<1, 0, 0, 0>> ELSE Ev.r[n - 1]))) = TRUE
          /\ UNCHANGED x
Pow == /\ Is("pow")
       /\ Chk("power zero", Ev.r[1] = <<1, 0, 0, 0>>)
       /\ (\A e \in 1..(Len(Ev.r) - 1) : Chk(<<"power", e, "of", Ev.a>>, MulOK(Ev.r[e], Ev.a, Ev.q[e], Ev.r[e + 1]))) = TRUE
       /\ UNCHANGED x

(* ------------------------------ transforms ----------------------------- *)
Trip == /\ Is("trip")
        /\ (\A i \in 1..Len(Ev.x) : Chk(<<"transform and back, size", Ev.nbit, "at", i - 1, Ev.x[i], Ev.y[i]>>, Ev.x[i] = Ev.y[i])) = TRUE
        /\ Chk("size", Len(Ev.x) = 2 ^ Ev.nbit)
        /\ x' = Ev.x
(* products in the transform domain of the last vector and a polynomial of   *)
(* few terms                                                                 *)
NegF(a) == IF a = Zero(4) THEN a ELSE Sub(PW, a)
ConvAt(p, n) ==
  FoldLeft(LAMBDA s, i : LET k == Ev.e[i]
                             y == x[((p - k) % n) + 1]
                         IN  Add(s, Ext(MulW(Ev.c[i], IF Ev.neg /\ k > p THEN NegF(y) ELSE y), 9)),
           Zero(9), [i \in 1..Len(Ev.e) |-> i])
Conv == /\ Is("conv")
        /\ (\A j \in 1..Len(Ev.pos) :
              Chk(<<"product, size", Ev.nbit, "negacyclic", Ev.neg, "at", Ev.pos[j], Ev.val[j]>>,
                  Field(Ev.val[j]) /\ ConvAt(Ev.pos[j], 2 ^ Ev.nbit) = QP(Ev.q[j], Ev.val[j], 9))) = TRUE
        /\ UNCHANGED x
Same == /\ Is("same")
        /\ (\A i \in 1..Len(Ev.x) : Chk(<<"product, size", Ev.nbit, "at", i - 1, Ev.x[i], Ev.y[i]>>, Ev.x[i] = Ev.y[i])) = TRUE
        /\ UNCHANGED x

(* ------------------------- torus words and residues --------------------- *)
TwiceLe(d, bound) == Le(Add(Abs(d), Abs(d)), bound)
(* r is the integer nearest to a P / 2^64, or that integer minus P           *)
In64 == /\ Is("in64")
        /\ (\A i \in 1..Len(Ev.a) :
              Chk(<<"residue of the torus word", Ev.a[i], "is", Ev.r[i]>>,
                  /\ Field(Ev.r[i])
                  /\ LET aP == QP(Ev.a[i], Zero(4), 9)
                         near(c) == TwiceLe(Sub(Up(c, 4, 9), aP), Up(<<1>>, 4, 9))
                     IN  near(Ev.r[i]) \/ near(Add(Ext(Ev.r[i], 5), Ext(PW, 5))))) = TRUE
        /\ UNCHANGED x
(* r is a 2^64 / P rounded, from half a unit above to one and a half below:  *)
(* the library multiplies by 2^64 + 2^32 - 1, which is short of 2^128 / P    *)
(* by up to one unit of the result                                           *)
Out64 == /\ Is("out64")
         /\ (\A i \in 1..Len(Ev.a) :
               Chk(<<"torus word of the residue", Ev.a[i], "is", Ev.r[i]>>,
                   LET d == Sub(QP(Ev.r[i], Zero(4), 9), Up(Ev.a[i], 4, 9))
                       d2 == Add(d, d)
                   IN  IF IsNeg(d) THEN Le(Neg(d2), MulC(Ext(PW, 9), 3)) ELSE Le(d2, Ext(PW, 9)))) = TRUE
         /\ UNCHANGED x
Out32 == /\ Is("out32")
         /\ (\A i \in 1..Len(Ev.a) : Chk(<<"low word of", Ev.a[i], Ev.r[i]>>, Ev.r[i] = SubSeq(Ev.a[i], 1, 2))) = TRUE
         /\ UNCHANGED x
In32 == /\ Is("in32")
        /\ (\A i \in 1..Len(Ev.a) : Chk(<<"residue of a narrow word", Ev.a[i], Ev.r[i]>>, Ev.r[i] = Ext(Ev.a[i], 4))) = TRUE
        /\ UNCHANGED x

(* ---------------------------- the small prime --------------------------- *)
SignedR(r) == r > -RP /\ r < RP
W64(v) == OfInt(v, 4)
(* the low 64 bits of v times P                                              *)
TimesP(v) == SubSeq(MulW(v, RPW), 1, 4)
Prod(a, b) == LET p == MulW(OfNat(IF a < 0 THEN -a ELSE a, 2), OfNat(IF b < 0 THEN -b ELSE b, 2))
              IN  IF (a < 0) # (b < 0) THEN Neg(p) ELSE p
(* x = q P + r 2^32 as 64-bit integers; none of the three overflows when the *)
(* magnitudes are as stated                                                  *)
Redc(xx, q, r) == /\ Lt(Abs(q), <<0, 0, 3, 0>>)   \* |q| < 3 2^32 : |q P| < 2^63
                  /\ xx = Add(TimesP(q), Up(SubSeq(OfInt(r, 2), 1, 2), 2, 4))
Mont == /\ Is("mont")
        /\ (\A i \in 1..Len(Ev.a) : Chk(<<Ev.op, Ev.a[i], Ev.b[i], Ev.x[i], "gives", Ev.r[i]>>,
              CASE Ev.op = "add" -> SignedR(Ev.r[i]) /\ ((Ev.a[i] + Ev.b[i]) - Ev.r[i]) \in {0, RP, -RP}
                [] Ev.op = "sub" -> SignedR(Ev.r[i]) /\ ((Ev.a[i] - Ev.b[i]) - Ev.r[i]) \in {0, RP, -RP}
                [] Ev.op = "mulsredc" -> SignedR(Ev.r[i]) /\ Prod(Ev.a[i], Ev.b[i]) = Ev.x[i] /\ Redc(Ev.x[i], Ev.q[i], Ev.r[i])
                [] Ev.op = "mulredc" -> Ev.r[i] >= 0 /\ Ev.r[i] < RP /\ Prod(Ev.a[i], Ev.b[i]) = Ev.x[i] /\ Redc(Ev.x[i], Ev.q[i], Ev.r[i])
                [] OTHER -> SignedR(Ev.r[i]) /\ Redc(Ev.x[i], Ev.q[i], Ev.r[i]))) = TRUE
        /\ UNCHANGED x
(* a b = q P + r with non-negative integers below 2^31                       *)
ModOK(a, b, q, r) == r >= 0 /\ r < RP /\ Prod(a, b) = Add(Prod(q, RP), W64(r))
(* R = 2^32 mod P: 2^32 = 6 P + R                                            *)
RConst == /\ Is("rconst")
          /\ Chk("the prime", Ev.p = RP)
          /\ Chk(<<"R", Ev.r>>, Add(Prod(6, RP), W64(Ev.r)) = <<0, 0, 1, 0>> /\ Ev.r < RP)
          /\ UNCHANGED x
RInv == /\ Is("rinv")
        /\ (\A i \in 1..Len(Ev.r) : Chk(<<"inverse of", Ev.of[i], Ev.r[i]>>, ModOK(Ev.of[i], Ev.r[i], Ev.q[i], 1) /\ Ev.r[i] \in 0..(RP - 1))) = TRUE
        /\ UNCHANGED x
RPow == /\ Is("rpow")
        /\ Chk("power zero", Ev.r[1] = 1)
        /\ (\A e \in 1..(Len(Ev.r) - 1) : Chk(<<"power", e, "of", Ev.a>>, ModOK(Ev.r[e], Ev.a, Ev.q[e], Ev.r[e + 1]))) = TRUE
        /\ UNCHANGED x
(* sums of signed products over five limbs                                   *)
RAt(p, n) ==
  FoldLeft(LAMBDA s, i : LET k == Ev.e[i]
                             y == Ev.x[((p - k) % n) + 1]
                         IN  Add(s, SExt(Prod(Ev.c[i], IF k > p THEN -y ELSE y), 5)),
           Zero(5), [i \in 1..Len(Ev.e) |-> i])
RConv == /\ Is("rconv")
         /\ (\A j \in 1..Len(Ev.pos) :
               Chk(<<"product modulo the small prime, size", Ev.nbit, "at", Ev.pos[j], Ev.val[j]>>,
                   /\ Ev.val[j] >= 0 /\ Ev.val[j] < RP
                   /\ Lt(Abs(Ev.q[j]), <<0, 0, 0, 8192, 0>>)     \* |q P| < 2^79 - no wrap
                   /\ RAt(Ev.pos[j], 2 ^ Ev.nbit) = Add(SubSeq(LET m == MulW(Abs(Ev.q[j]), RPW) IN IF IsNeg(Ev.q[j]) THEN Neg(m) ELSE m, 1, 5), OfNat(Ev.val[j], 5)))) = TRUE
         /\ UNCHANGED x
RSame == /\ Is("rsame")
         /\ (\A i \in 1..Len(Ev.x) : Chk(<<"residues, size", Ev.nbit, "at", i - 1, Ev.x[i], Ev.y[i]>>, Ev.x[i] = Ev.y[i])) = TRUE
         /\ UNCHANGED x
(* nearest to a P / 2^32, modulo P                                           *)
RIn == /\ Is("rin")
       /\ (\A i \in 1..Len(Ev.a) : Chk(<<"small residue of the torus word", Ev.a[i], Ev.r[i]>>,
             /\ Ev.r[i] >= 0 /\ Ev.r[i] < RP
             /\ LET aP == SubSeq(MulW(Ev.a[i], RPW), 1, 4)
                    near(r) == TwiceLe(Sub(Up(OfNat(r, 2), 2, 4), aP), <<0, 0, 1, 0>>)
                IN  near(Ev.r[i]) \/ near(Ev.r[i] + RP))) = TRUE
       /\ UNCHANGED x
(* the signed word modulo P                                                  *)
RPlain == /\ Is("rplain")
          /\ (\A i \in 1..Len(Ev.a) : Chk(<<"small residue of the signed word", Ev.a[i], Ev.r[i]>>,
                SignedR(Ev.r[i]) /\ SExt(Ev.a[i], 4) = Add(Prod(Ev.q[i], RP), W64(Ev.r[i])))) = TRUE
          /\ UNCHANGED x
(* back: within 0.81 of a unit of a 2^32 / P (the library multiplies by a     *)
(* rounded constant)                                                         *)
ROut == /\ Is("rout")
        /\ (\A i \in 1..Len(Ev.a) : Chk(<<"torus word of the small residue", Ev.a[i], Ev.r[i]>>,
              LET near(c) == Le(Abs(Sub(Up(OfNat(Ev.a[i], 2), 2, 4), c)), OfNat(530841600, 4))
              IN  near(SubSeq(MulW(Ev.r[i], RPW), 1, 4)))) = TRUE
        /\ UNCHANGED x
Init == TraceInit /\ x = <<>>
Next == FieldOps \/ Make \/ Shift \/ Halves \/ Pow \/ Trip \/ Conv \/ Same \/ In64 \/ Out64 \/ Out32 \/ In32
        \/ Mont \/ RConst \/ RInv \/ RPow \/ RConv \/ RSame \/ RIn \/ RPlain \/ ROut
Spec == Init /\ [][Next]_vars
=============================================================================
