---------------------------- MODULE MemoryTrace ----------------------------
(* C10.  Access histories on the real encrypted memory.  The specification  *)
(* keeps the plain memory (whole polynomials) and, per cell, how many       *)
(* external products its noise has been through.                            *)
EXTENDS TraceBase, Levels

VARIABLES keys, mem, age, shape
vars == <<keys, mem, age, shape>>

Key == /\ Is("key") /\ keys' = [keys EXCEPT ![Ev.lvl] = Ev.vals] /\ UNCHANGED <<mem, age, shape>>
Same == Is("same") /\ Chk(<<"operands of", Ev.what, "unchanged">>, Ev.ok) /\ UNCHANGED vars
Coef == /\ Is("coef")
        /\ Chk(<<"ring phase", Ev.lvl, Ev.j>>, RingPhase(Ev.a, Ev.b, keys[Ev.lvl], Ev.j, Lv(Ev.lvl).w) = Ev.ph)
        /\ UNCHANGED vars
Sample == /\ Is("sample")
          /\ Chk(<<"phase", Ev.lvl>>, Phase(Ev.c, keys[Ev.lvl], Lv(Ev.lvl).w) = Ev.ph)
          /\ UNCHANGED vars

Sig == [ lvl1 |-> [row |-> 181, round |-> 121, u |-> 10],
         lvl2 |-> [row |-> 148, round |-> 171, u |-> 24] ]
Tol(lv, terms) ==
  LET g == Sig[lv]
  IN  Shl(OfNat(7 * ISqrt((terms * g.row * g.row) + (terms * g.round * g.round)) + 8, Limbs(lv)), g.u)

Memory == /\ Is("memory")
          /\ Chk("cells", Len(Ev.cells) = 2 ^ (Ev.abit - Ev.wbit))
          /\ mem' = Ev.cells /\ age' = [i \in 1..Len(Ev.cells) |-> 0]
          /\ shape' = [lvl |-> Ev.lvl, abit |-> Ev.abit, wbit |-> Ev.wbit]
          /\ UNCHANGED keys

Holds(what, a, got, want, terms) ==
  \E tol \in {Tol(shape.lvl, terms)} :
    \A j \in 1..Len(want) :
      Chk(<<what, shape, "address", a, "coefficient", j - 1>>, Near(got[j], want[j], tol))

Read == /\ Is("read")
        /\ Chk("degree", Len(Ev.r) = Lv(shape.lvl).n)
        /\ Holds("read", Ev.addr, Ev.r, mem[Ev.addr + 1], age[Ev.addr + 1] + shape.abit)
        /\ UNCHANGED vars
Write == /\ Is("write")
         /\ mem' = [mem EXCEPT ![Ev.addr + 1] = Ev.v]
         /\ age' = [i \in 1..Len(age) |-> IF i = Ev.addr + 1 THEN shape.abit ELSE age[i] + shape.abit]
         /\ \A i \in 1..Len(mem) :
              Holds(IF i = Ev.addr + 1 THEN <<"written cell">> ELSE <<"other cell", i - 1, "after write">>,
                    Ev.addr, Ev.cells[i], IF i = Ev.addr + 1 THEN Ev.v ELSE mem[i],
                    IF i = Ev.addr + 1 THEN shape.abit ELSE age[i] + shape.abit)
         /\ UNCHANGED <<keys, shape>>

(* one cell of a wide memory, through its own chain of multiplexers         *)
Cell == /\ Is("cell")
        /\ \E tol \in {Tol(Ev.lvl, Ev.abit)}, want \in {IF Ev.index = Ev.addr THEN Ev.v ELSE Ev.old} :
             \A j \in 1..Lv(Ev.lvl).n :
               Chk(<<"cell", Ev.index, "of a memory of", Ev.abit, "address bits after a write to", Ev.addr, "coefficient", j - 1>>,
                   Near(Ev.r[j], want[j], tol))
        /\ UNCHANGED vars

(* vertical part: upper address bits select a cell; horizontal part: the     *)
(* lower ones select a word of it                                            *)
CbTol(lv, terms) == Shl(OfNat(7 * 26000 * terms, Limbs(lv)), 10)
Rom == /\ Is("rom")
       /\ LET up == Ev.addr \div (2 ^ shape.wbit)
              lo == Ev.addr % (2 ^ shape.wbit)
              word == Lv(shape.lvl).n \div (2 ^ shape.wbit)
              tol(terms) == IF Ev.boot = 1 THEN CbTol(shape.lvl, terms) ELSE Tol(shape.lvl, terms)
          IN  /\ Chk("word length", Len(Ev.out) = word)
              /\ \E t1 \in {tol(shape.abit - shape.wbit)}, t2 \in {tol(shape.abit)} :
                 /\ \A j \in 1..Lv(shape.lvl).n :
                      Chk(<<"vertical packing", shape, "address", Ev.addr, "coefficient", j - 1>>,
                          Near(Ev.vertical[j], mem[up + 1][j], t1))
                 /\ \A i \in 1..word :
                      Chk(<<"horizontal packing", shape, "address", Ev.addr, "word entry", i - 1>>,
                          Near(Ev.out[i], mem[up + 1][(lo * word) + i], t2))
       /\ UNCHANGED vars

(* bits, through bootstrapped addresses and a refresh after each access      *)
Bits == /\ Is("bits") /\ mem' = Ev.vals /\ age' = <<>> /\ shape' = [lvl |-> "lvl1", abit |-> Ev.abit, wbit |-> 0]
        /\ UNCHANGED keys
MuOf(b) == IF b = 1 THEN Mu("lvl1") ELSE Neg(Mu("lvl1"))
Access == /\ Is("access")
          /\ Chk(<<"read bit", shape.abit, "address", Ev.addr, Ev.rd>>,
                 Near(Ev.rd, MuOf(mem[Ev.addr + 1]), Shl(OfNat(7 * 26000, 2), 10)))
          /\ mem' = [mem EXCEPT ![Ev.addr + 1] = IF Ev.set = 1 THEN Ev.val ELSE @]
          /\ \E now \in {[mem EXCEPT ![Ev.addr + 1] = IF Ev.set = 1 THEN Ev.val ELSE @]} :
               \A i \in 1..Len(mem) :
                 Chk(<<"bit after access", shape.abit, "address", Ev.addr, "set", Ev.set, "cell", i - 1>>,
                     Near(Ev.cells[i], MuOf(now[i]), Shl(OfNat(7 * 5453, 2), 10)))
          /\ UNCHANGED <<keys, age, shape>>

Init == TraceInit /\ keys = [n \in {"lvl1", "lvl2"} |-> <<>>] /\ mem = <<>> /\ age = <<>> /\ shape = <<>>
Next == Key \/ Same \/ Coef \/ Sample \/ Memory \/ Read \/ Write \/ Cell \/ Rom \/ Bits \/ Access
Spec == Init /\ [][Next]_<<l, vars>>
=============================================================================
