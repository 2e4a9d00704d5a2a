--------------------------- MODULE CircBootTrace ---------------------------
(* C09.  Circuit bootstrappings of the real library.  The bit is the sign   *)
(* of the input's phase, computed here; every coefficient of every row must *)
(* be the gadget form of the bit, to within the switching noise.            *)
EXTENDS TraceBase, Levels

VARIABLE keys

Key == /\ Is("key") /\ keys' = [keys EXCEPT ![Ev.lvl] = Ev.vals]
Coef == /\ Is("coef")
        /\ Chk(<<"ring phase", Ev.lvl, Ev.j>>, RingPhase(Ev.a, Ev.b, keys[Ev.lvl], Ev.j, Lv(Ev.lvl).w) = Ev.ph)
        /\ UNCHANGED keys
Same == Is("same") /\ Chk(<<"same", Ev.what>>, Ev.ok) /\ UNCHANGED keys

(* levels and base bits of the gadgets                                       *)
Dec == [lvl1 |-> [l |-> 3, bg |-> 6], lvl2 |-> [l |-> 4, bg |-> 9]]
(* one standard deviation of a row's noise: key switch and rounding, and for *)
(* the wide ring the bootstrapping it starts from                            *)
RowSd == [lvl1 |-> <<18300, 0>>, lvl2 |-> <<7000, 24>>]
RowTol(lv) == Shl(OfNat(7 * RowSd[lv][1], Limbs(lv)), RowSd[lv][2])
(* external products with such rows                                          *)
MuxSd == [lvl1 |-> <<26000, 10>>, lvl2 |-> <<20000, 36>>]
MuxTol(lv, depth) == Shl(OfNat(7 * MuxSd[lv][1] * depth, Limbs(lv)), MuxSd[lv][2])

Gadget ==
  /\ Is("gadget")
  /\ LET lv == Ev.lvl
         dom == Lv(Ev.dom)
         n == Lv(lv).n
         D == Dec[lv]
     IN  /\ Chk(<<"rows", Len(Ev.rows)>>, Len(Ev.rows) = 2 * D.l)
         /\ \E p \in {Phase(Ev.in, keys[Ev.dom], dom.w)} :
            \E bit \in {IF IsNeg(p) = Ev.inv THEN 1 ELSE 0} :
            \E tol \in {RowTol(lv)}, zero \in {Zero(Limbs(lv))} :
              /\ Chk(<<"harness: admissible input", p>>, Near(Abs(p), Mu(Ev.dom), Add(Shr(Mu(Ev.dom), 3), Shr(Mu(Ev.dom), 3))))
              /\ \A i \in 1..D.l :
                 \E h \in {Pow2(Lv(lv).w - (i * D.bg), Limbs(lv))} :
                 \E val \in {[v \in {-1, 0, 1} |-> IF bit = 0 THEN zero ELSE MulC(h, v)]} :
                   /\ \A j \in 1..n :
                        Chk(<<"mask row", lv, Ev.what, Ev.variant, "bit", bit, "row", i, "coefficient", j - 1>>,
                            Near(Ev.rows[i][j], val[-keys[lv][j]], tol))
                   /\ \A j \in 1..n :
                        Chk(<<"body row", lv, Ev.what, Ev.variant, "bit", bit, "row", i, "coefficient", j - 1>>,
                            Near(Ev.rows[D.l + i][j], val[IF j = 1 THEN 1 ELSE 0], tol))
  /\ UNCHANGED keys

Select ==
  /\ Is("select")
  /\ \E tol \in {MuxTol(Ev.lvl, Ev.depth)} :
       \A j \in 1..Len(Ev.r) :
         Chk(<<"multiplexer tree", Ev.lvl, Ev.what, "address", Ev.addr, "coefficient", j - 1>>,
             Near(Ev.r[j], Ev.cells[Ev.addr + 1][j], tol))
  /\ UNCHANGED keys

Init == TraceInit /\ keys = [n \in DOMAIN LevelTable |-> <<>>]
Next == Key \/ Coef \/ Same \/ Gadget \/ Select
Spec == Init /\ [][Next]_<<l, keys>>
=============================================================================
