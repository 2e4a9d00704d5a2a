------------------------------- MODULE Gadget -------------------------------
(***************************************************************************)
(* Balanced gadget decomposition of a W-bit torus word into L digits of    *)
(* BGBIT bits.  The state machine is the decomposition itself: it adds the *)
(* rounding half-unit, then peels digits from the least significant one,   *)
(* handing a carry to the next digit whenever a digit is made negative.    *)
(* The carry out of the most significant digit is dropped (the torus).     *)
(* Model checking covers every word of every configuration within the      *)
(* bounds of GadgetMC.cfg, with integers; GadgetTrace states the same      *)
(* relation over machine words and applies it to the real library.         *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANTS MaxW

VARIABLES W, L, Bgbit,  \* configuration
          v,            \* the word
          rest,         \* part not yet decomposed (after rounding), an integer
          d,            \* digits found so far, most significant first
          pc

vars == <<W, L, Bgbit, v, rest, d, pc>>

Bg == 2 ^ Bgbit
Half == Bg \div 2

Init == /\ W \in 3..MaxW
        /\ Bgbit \in 1..W
        /\ L \in 1..W
        /\ L * Bgbit < W
        /\ v \in 0..(2 ^ W - 1)
        /\ rest = ((v + 2 ^ (W - (L * Bgbit) - 1)) \div 2 ^ (W - (L * Bgbit))) % 2 ^ (L * Bgbit)
        /\ d = <<>>
        /\ pc = "peel"

Peel == /\ pc = "peel" /\ Len(d) < L
        /\ LET low == rest % Bg
               dig == IF low >= Half THEN low - Bg ELSE low
           IN  /\ d' = <<dig>> \o d
               /\ rest' = (rest - dig) \div Bg
        /\ UNCHANGED <<W, L, Bgbit, v, pc>>

Finish == /\ pc = "peel" /\ Len(d) = L
          /\ pc' = "done"
          /\ UNCHANGED <<W, L, Bgbit, v, rest, d>>

Next == Peel \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* ------------------------------ properties ----------------------------- *)
RECURSIVE Recomp(_, _)
Recomp(ds, i) == IF i = 0 THEN 0 ELSE Recomp(ds, i - 1) + (ds[i] * 2 ^ (W - (i * Bgbit)))

CircDist(a, b) == LET x == (a - b) % 2 ^ W IN IF x <= 2 ^ (W - 1) THEN x ELSE 2 ^ W - x

Bounded    == \A i \in 1..Len(d) : d[i] \in (-Half)..Half
Recomposes == pc = "done" => CircDist(Recomp(d, L), v) <= 2 ^ (W - (L * Bgbit) - 1)
(* the offset form used by implementations: add Half at every digit, take   *)
(* plain digits, subtract Half: it yields the same digits                   *)
Offset     == LET RECURSIVE O(_)
                  O(i) == IF i = 0 THEN 0 ELSE O(i - 1) + (Half * 2 ^ (W - (i * Bgbit)))
              IN O(L)
OffsetForm == pc = "done" =>
  \A i \in 1..L :
     d[i] = (((v + Offset + 2 ^ (W - (L * Bgbit) - 1)) \div 2 ^ (W - (i * Bgbit))) % Bg) - Half
Terminates == <>(pc = "done")
=============================================================================
