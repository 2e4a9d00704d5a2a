------------------------------- MODULE Memory -------------------------------
(***************************************************************************)
(* Encrypted memory as a multiplexer network.  The reachable states are     *)
(* those of every history of reads and writes; the shadow is a plain        *)
(* memory.  Reading runs the library's in-place tree over the cells, a      *)
(* write sends every cell through its own chain of multiplexers, and the    *)
(* horizontal packing rotates a polynomial by one selector bit at a time.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

CONSTANTS ABit,      \* address bits, at least 2
          Val,       \* cell contents
          NBit, WBit \* ring of 2^NBit coefficients, addressed by WBit bits
VARIABLES mem, shadow, out, want
vars == <<mem, shadow, out, want>>

Cells == 0..(2 ^ ABit - 1)
BitOf(a, i) == (a \div 2 ^ i) % 2
Mux(s, x, y) == IF s = 1 THEN x ELSE y
Span(a, b) == [i \in 1..(b - a + 1) |-> a + i - 1]

(* the tree, with inverted address bits as selectors, in place               *)
Tree(a, d) ==
  LET inv(i) == 1 - BitOf(a, i)
      t0 == [x \in 0..(2 ^ (ABit - 1) - 1) |-> Mux(inv(0), d[2 * x], d[2 * x + 1])]
      stage(t, b) == LET st == 2 ^ b
                     IN  [x \in DOMAIN t |->
                            IF x % (2 * st) = 0 THEN Mux(inv(b + 1), t[x], t[x + st]) ELSE t[x]]
      t1 == FoldLeft(stage, t0, Span(0, ABit - 3))
  IN  Mux(inv(ABit - 1), t1[0], t1[2 ^ (ABit - 2)])
(* the chain of cell i: keep the new value as long as the address bits agree *)
Chain(a, i, new, old) ==
  FoldLeft(LAMBDA acc, b : Mux(IF BitOf(i, b) = BitOf(a, b) THEN 1 ELSE 0, acc, old), new, Span(0, ABit - 1))

Init == mem \in [Cells -> Val] /\ shadow = mem /\ out = 0 /\ want = 0
Read == \E a \in Cells : /\ out' = Tree(a, mem) /\ want' = shadow[a] /\ UNCHANGED <<mem, shadow>>
Write == \E a \in Cells, v \in Val :
           /\ mem' = [i \in Cells |-> Chain(a, i, v, mem[i])]
           /\ shadow' = [shadow EXCEPT ![a] = v] /\ UNCHANGED <<out, want>>
Next == Read \/ Write
Spec == Init /\ [][Next]_vars

ReadsLatest == out = want
Agree == mem = shadow

(* horizontal packing: rotation by word * address, most significant bit first *)
N == 2 ^ NBit
Word == 2 ^ (NBit - WBit)
Rot(p, x) == [j \in 0..(N - 1) |-> LET e == (j - x) % (2 * N) IN IF e < N THEN p[e] ELSE -p[e - N]]
Horizontal ==
  LET p == [j \in 0..(N - 1) |-> j + 1]
  IN  \A a \in 0..(2 ^ WBit - 1) :
        LET r == FoldLeft(LAMBDA acc, b : IF BitOf(a, WBit - b) = 1 THEN Rot(acc, (2 * N) - (N \div 2 ^ b)) ELSE acc,
                          p, Span(1, WBit))
        IN  \A i \in 0..(Word - 1) : r[i] = p[(a * Word) + i]
ASSUME Horizontal
=============================================================================
