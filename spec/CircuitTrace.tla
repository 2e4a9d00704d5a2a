---------------------------- MODULE CircuitTrace ----------------------------
(* C02.  Gate programs run on the real library.  The specification carries  *)
(* the plain bit of every register and the noise bound of the operation     *)
(* that last wrote it; phases are computed here from the raw samples.       *)
EXTENDS TraceBase, Levels, Gates

VARIABLES keys, bit, tol, stat
vars == <<keys, bit, tol, stat>>

Key == /\ Is("key")
       /\ keys' = [keys EXCEPT ![Ev.lvl] = Ev.vals]
       /\ UNCHANGED <<bit, tol, stat>>
Same == Is("same") /\ Chk(<<"same", Ev.what>>, Ev.ok) /\ UNCHANGED vars

IsRing == Ev.op \in {"MUXNOIKSSE", "MUXNOSE", "IKSMUXNOSE", "EXTMUX"}
BrOf(co) == CASE co \in {"01", "10_01", "20_01", "-"} -> "01"
              [] co \in {"h1", "1h_h1", "2h_h1"} -> "h1"
              [] co \in {"02", "10_02", "20_02"} -> "02"
              [] co \in {"h2", "1h_h2", "2h_h2"} -> "h2"
To(lv) == CASE lv = "10" -> "lvl0" [] lv = "1h" -> "lvlhalf" [] lv = "20" -> "lvl0" [] lv = "2h" -> "lvlhalf" [] lv = "21" -> "lvl1"
From(co) == IF co \in {"10", "1h"} THEN "lvl1" ELSE "lvl2"
Target ==
  IF Ev.op = "SWITCH" THEN To(Ev.combo)
  ELSE IF Ev.op = "EXTMUX" THEN "lvl1"
  ELSE IF IsRing THEN (IF BrOf(Ev.combo) \in {"01", "h1"} THEN "lvl1" ELSE "lvl2")
  ELSE Ev.lv

(* standard deviation of the result's noise, s * 2^u in its word *)
SigmaT ==
  [ g10_01 |-> <<5034, 10>>, g1h_h1 |-> <<5453, 10>>, g20_02 |-> <<5300, 24>>, g2h_h2 |-> <<5700, 24>>,
    g01_10 |-> <<452, 0>>, g02_20 |-> <<630, 0>>, gh1_1h |-> <<6291, 10>>, gh2_2h |-> <<4300, 10>>,
    m01 |-> <<7130, 10>>, mh1 |-> <<7718, 10>>, m02 |-> <<7500, 24>>, mh2 |-> <<8100, 24>>, mlvl0 |-> <<459, 0>>,
    s10 |-> <<446, 0>>, s1h |-> <<3029, 10>>, s20 |-> <<630, 0>>, s2h |-> <<4300, 10>>, s21 |-> <<15560, 0>> ]
Class ==
  IF Ev.op \in Bin THEN "g" \o Ev.combo
  ELSE IF Ev.op = "SWITCH" THEN "s" \o Ev.combo
  ELSE IF Ev.op \in {"MUX", "NMUX"} THEN (IF Ev.lv = "lvl0" THEN "mlvl0" ELSE "m01")
  ELSE IF Ev.op = "EXTMUX" THEN "m01"
  ELSE "m" \o BrOf(Ev.combo)
Times(c, k, lv) == Shl(OfNat(k * SigmaT[c][1], Limbs(lv)), SigmaT[c][2])

Bt(lv, i) == bit[lv][i + 1]
NewBit ==
  CASE Ev.op \in {"ENC"} -> Ev.a
    [] Ev.op = "ONE" -> 1
    [] Ev.op = "ZERO" -> 0
    [] Ev.op = "NOT" -> NotB(Bt(Ev.lv, Ev.a))
    [] Ev.op = "COPY" -> Bt(Ev.lv, Ev.a)
    [] Ev.op = "SWITCH" -> Bt(From(Ev.combo), Ev.a)
    [] Ev.op = "NMUX" -> NotB(Mux(Bt(Ev.lv, Ev.a), Bt(Ev.lv, Ev.b), Bt(Ev.lv, Ev.c)))
    [] Ev.op \in Bin -> Truth(Ev.op, Bt(Ev.lv, Ev.a), Bt(Ev.lv, Ev.b))
    [] OTHER -> Mux(Bt(Ev.lv, Ev.a), Bt(Ev.lv, Ev.b), Bt(Ev.lv, Ev.c))
(* the bound after an operation: its own for a bootstrapped gate, the        *)
(* operand's otherwise                                                       *)
NewTol ==
  CASE Ev.op = "ENC" -> Add(Shr(Mu(Ev.lv), 3), Shr(Mu(Ev.lv), 3))
    [] Ev.op \in {"ONE", "ZERO"} -> Zero(Limbs(Ev.lv))
    [] Ev.op \in {"NOT", "COPY"} -> tol[Ev.lv][Ev.a + 1]
    [] Ev.op = "SWITCH" -> Add(Resize(tol[From(Ev.combo)][Ev.a + 1], Limbs(Target)), Times(Class, 7, Target))
    [] OTHER -> Times(Class, 7, Target)
Boots == Ev.op \in Bin \/ Ev.op \in {"MUX", "NMUX"} \/ IsRing
Enc(lv, b) == IF b = 1 THEN Mu(lv) ELSE Neg(Mu(lv))

Op == /\ Is("op")
      /\ \E tl \in {Target} :
         \E b \in {NewBit}, e \in {NewTol}, p \in {Phase(Ev.out, keys[tl], Lv(tl).w)} :
           /\ Chk(<<"register length", Ev.op, tl>>, Len(Ev.out) = Lv(tl).n + 1)
           /\ Chk(<<"gate result", Ev.op, Ev.lv, Ev.combo, "bit", b, "phase", p>>, Near(p, Enc(tl, b), e))
           /\ Chk(<<"only the result register changes", Ev.op, Ev.changed>>,
                  \A i \in 1..Len(Ev.changed) : Ev.changed[i] = tl \o "." \o ToString(Ev.r))
           /\ bit' = [bit EXCEPT ![tl][Ev.r + 1] = b]
           /\ tol' = [tol EXCEPT ![tl][Ev.r + 1] = e]
           /\ stat' = IF ~Boots THEN stat
                      ELSE LET d == Abs(Sub(p, Enc(tl, b)))
                           IN  [stat EXCEPT ![Class].n = @ + 1,
                                            ![Class].one = @ + (IF Le(d, Times(Class, 1, tl)) THEN 1 ELSE 0),
                                            ![Class].two = @ + (IF Le(d, Times(Class, 2, tl)) THEN 1 ELSE 0)]
      /\ UNCHANGED keys

(* the noise of every kind of gate stays in its distribution: at least 68    *)
(* and 95 per cent within one and two standard deviations, less six standard *)
(* deviations of the count                                                   *)
Stats == /\ Is("stats")
         /\ \A c \in DOMAIN stat :
              LET q == stat[c]
              IN  IF q.n < 40 THEN TRUE ELSE Chk(<<"gate noise", c, q>>,
                    /\ 1000 * q.one >= (640 * q.n) - (3000 * ISqrt(q.n))
                    /\ 1000 * q.two >= (945 * q.n) - (1400 * ISqrt(q.n)))
         /\ IF "SHOWSTAT" \in DOMAIN IOEnv THEN PrintT({<<c, stat[c].n, stat[c].one, stat[c].two>> : c \in {d \in DOMAIN stat : stat[d].n > 0}}) ELSE TRUE
         /\ UNCHANGED vars

L4 == {"lvl0", "lvlhalf", "lvl1", "lvl2"}
Init == /\ TraceInit /\ keys = [n \in L4 |-> <<>>]
        /\ bit = [n \in L4 |-> <<0, 0, 0, 0>>] /\ tol = [n \in L4 |-> <<<<>>, <<>>, <<>>, <<>>>>]
        /\ stat = [c \in DOMAIN SigmaT |-> [n |-> 0, one |-> 0, two |-> 0]]
Next == Key \/ Same \/ Op \/ Stats
Spec == Init /\ [][Next]_<<l, vars>>
=============================================================================
