----------------------------- MODULE RingTrace -----------------------------
(* C06.  Polynomial operations of the real library.  The current polynomial *)
(* p is state; each line applies one operation to it.                       *)
EXTENDS TraceBase, Words, Ring

VARIABLE p

SetPoly == Is("poly") /\ p' = Ev.p

OpOk(op, j, a, val) ==
  LET x == XaiAt(p, a, j, Neg)
  IN  val = (IF op = "mul" THEN x ELSE Sub(x, p[j + 1]))

Xai == /\ Is("xai")
       /\ Chk("size", Len(Ev.r) = Len(p))
       /\ \A j \in 0..(Len(p) - 1) :
            Chk(<<"monomial", Ev.what, Ev.op, "a", Ev.a, "coefficient", j>>, OpOk(Ev.op, j, Ev.a, Ev.r[j + 1]))
       /\ UNCHANGED p
XaiPos == /\ Is("xaipos")
          /\ \A i \in 1..Len(Ev.pos) :
               Chk(<<"monomial", Ev.what, Ev.op, "a", Ev.a, "coefficient", Ev.pos[i]>>, OpOk(Ev.op, Ev.pos[i], Ev.a, Ev.val[i]))
          /\ UNCHANGED p
Autom == /\ Is("auto")
         /\ Chk(<<"automorphism", Ev.what, Ev.d>>, IsAuto(Ev.r, p, Ev.d, Neg))
         /\ UNCHANGED p

(* coefficient j of p * b, b a sequence of <<exponent, small coefficient>>  *)
SparseProdAt(b, j) == FoldLeft(LAMBDA acc, x : Add(acc, MulC(XaiAt(p, x[1], j, Neg), x[2])), Zero(Len(p[1])), b)
Prod == /\ Is("prod")
        /\ Chk("size", Len(Ev.r) = Len(p))
        /\ \A j \in 0..(Len(p) - 1) :
             Chk(<<"product", Ev.what, j>>, Near(Ev.r[j + 1], SparseProdAt(Ev.b, j), Ev.tol))
        /\ UNCHANGED p
(* dense small b, some coefficients *)
DenseProdAt(b, j) ==
  LET n == Len(p) IN SumSeq([i \in 1..n |-> MulC(XaiAt(p, i - 1, j, Neg), b[i])], Len(p[1]))
Dense == /\ Is("dense")
         /\ \A i \in 1..Len(Ev.pos) :
              Chk(<<"dense product", Ev.what, Ev.pos[i]>>, Near(Ev.val[i], DenseProdAt(Ev.b, Ev.pos[i]), Ev.tol))
         /\ UNCHANGED p

(* integer negacyclic product of two polynomials of unsigned 32-bit words,   *)
(* divided by 2^sh: 96-bit integers                                         *)
Wide(x) == x \o <<0, 0, 0, 0>>
MulW(a, b) ==  \* a, b 32-bit words; 96-bit product
  LET b0 == b[1] % 32768
      b1 == (b[1] \div 32768) + ((b[2] % 16384) * 2)
      b2 == b[2] \div 16384
  IN  Add(MulC(Wide(a), b0), Add(Shl(MulC(Wide(a), b1), 15), Shl(MulC(Wide(a), b2), 30)))
RescaleAt(b, j) ==
  LET n == Len(p)
      term(i) == LET s == j - (i - 1)
                 IN  IF s >= 0 THEN MulW(p[s + 1], b[i]) ELSE Neg(MulW(p[n + s + 1], b[i]))
  IN  SumSeq([i \in 1..n |-> term(i)], 6)
Rescale == /\ Is("rescale")
           /\ \A i \in 1..Len(Ev.pos) :
                LET x == Shr(RescaleAt(Ev.b, Ev.pos[i]), Ev.sh)
                IN  Chk(<<"rescaled product", Ev.what, Ev.pos[i], Ev.val[i], x>>,
                        Near(Ev.val[i], <<x[1], x[2]>>, Ev.tol))
           /\ UNCHANGED p

(* inverse transforms: r is p, each coefficient times mul *)
Back == /\ Is("back")
        /\ Chk("size", Len(Ev.r) = Len(p))
        /\ \A j \in 1..Len(p) : Chk(<<"inverse transform", Ev.what, j>>, Near(Ev.r[j], MulC(p[j], Ev.mul), Ev.tol))
        /\ UNCHANGED p

(* two ways of computing the same thing *)
Agree == /\ Is("agree")
         /\ Chk(<<"length", Ev.what>>, Len(Ev.a) = Len(Ev.b))
         /\ \A j \in 1..Len(Ev.a) : Chk(<<"agreement", Ev.what, j>>, Near(Ev.a[j], Ev.b[j], Ev.tol))
         /\ UNCHANGED p

(* C08 -------------------------------------------------------------------- *)
(* ring sample: mask a (here p) and body b; the sample extracted at idx      *)
Extract == /\ Is("extract")
           /\ Chk(<<"extracted body", Ev.idx>>, Ev.s[Len(p) + 1] = Ev.b[Ev.idx + 1])
           /\ Chk(<<"extracted mask", Ev.what, Ev.idx>>,
                  \A i \in 1..Len(p) : Ev.s[i] = ExtractMask(p, Ev.idx, Neg)[i])
           /\ UNCHANGED p
(* embedding the sample s at idx: the ring sample (a, b) extracts back to s  *)
(* at idx, and its body is zero elsewhere                                   *)
Embed == /\ Is("embed")
         /\ Chk(<<"embedded body", Ev.what, Ev.idx>>,
                \A i \in 1..Len(Ev.b) : Ev.b[i] = (IF i = Ev.idx + 1 THEN Ev.s[Len(Ev.a) + 1] ELSE Zero(Len(Ev.b[1]))))
         /\ LET m == ExtractMask(Ev.a, Ev.idx, Neg)
            IN  Chk(<<"embedded mask", Ev.what, Ev.idx>>, \A i \in 1..Len(Ev.a) : m[i] = Ev.s[i])
         /\ UNCHANGED p

Init == TraceInit /\ p = <<>>
Next == SetPoly \/ Xai \/ XaiPos \/ Autom \/ Prod \/ Dense \/ Rescale \/ Back \/ Agree \/ Extract \/ Embed
Spec == Init /\ [][Next]_<<l, p>>
=============================================================================
