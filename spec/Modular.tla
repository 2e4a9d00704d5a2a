------------------------------- MODULE Modular -------------------------------
(***************************************************************************)
(* C18.  Field arithmetic as the library computes it, on machine words.    *)
(* One accumulator per field; the actions are the operations, computed by   *)
(* the reduction algorithms the library uses (wrapping words of 2W bits for *)
(* the prime 2^2W - 2^W + 1; Montgomery reduction with signed words of B    *)
(* bits for the prime K 2^S + 1).  A ghost holds the integer the            *)
(* accumulator should be congruent to.  Every operand at every accumulator  *)
(* value is explored.  2^2W - 2^W + 1 need not be prime for the reductions; *)
(* (W = 2, 3, 4 give 13, 57, 241).                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Ws,          \* half widths of the wrapping field
          Monts        \* names of Montgomery configurations

(* wordbits, K, shift: prime, P < 2^(B-1), 2S >= B *)
MontOf == [m1 |-> [b |-> 8, k |-> 3, s |-> 5],      \* 97
           m2 |-> [b |-> 8, k |-> 1, s |-> 4],      \* 17
           m3 |-> [b |-> 7, k |-> 1, s |-> 4],      \* 17
           m4 |-> [b |-> 9, k |-> 6, s |-> 5],      \* 193
           m5 |-> [b |-> 9, k |-> 15, s |-> 4]]     \* 241, 2S < B: not admissible, see ModularBadMC

VARIABLES field,       \* [kind |-> "wrap", w |-> W] or [kind |-> "mont", ...]
          acc,         \* the machine value
          ghost,       \* its residue, 0..P-1
          last         \* name of the last operation
vars == <<field, acc, ghost, last>>

(* ------------------------- the wrapping field -------------------------- *)
H(w) == 2 ^ w                  \* the half word
M(w) == 2 ^ (2 * w)            \* the word
PW(w) == M(w) - H(w) + 1
(* static_cast<half>(-(c)) : all ones of a half word, or zero *)
Mask(c, w) == IF c THEN H(w) - 1 ELSE 0
Canon(x, w) == (x + Mask(x >= PW(w), w)) % M(w)

WAdd(a, b, w) == LET t == (a + b) % M(w) IN (t + Mask(t < b \/ t >= PW(w), w)) % M(w)
WSub(a, b, w) == LET t == (a - b) % M(w) IN (t - Mask(t > a, w)) % M(w)
(* limbs of the double word *)
WMul(a, b, w) ==
  LET t  == a * b
      t0 == t % H(w)                    t1 == (t \div H(w)) % H(w)
      t2 == (t \div M(w)) % H(w)        t3 == (t \div (M(w) * H(w))) % H(w)
      lo == t % M(w)
      r0 == (((t1 + t2) * H(w)) + t0 - t3 - t2) % M(w)
      r1 == (r0 - Mask(r0 > lo /\ t2 = 0, w)) % M(w)
      r2 == (r1 + Mask(r1 < lo /\ t2 # 0, w)) % M(w)
  IN  Canon(r2, w)
(* multiplication by 2^l, l in 0..6w-1, case by case *)
WShl(v, l, w) ==
  LET p == PW(w)
      lowH(x) == x % H(w)
      shl(x, k) == (x * 2 ^ k) % M(w)
      shr(x, k) == x \div 2 ^ k
      sub(a, b) == WSub(a, b, w)
  IN CASE l = 0 -> v
       [] l > 0 /\ l < w ->
            LET tl == shl(v, l)  tu == shr(v, (2 * w) - l)
                r == (tl + shl(tu, w) - tu) % M(w)
            IN  Canon((r + Mask(r < tl, w)) % M(w), w)
       [] l = w ->
            LET tl == shl(v, l)  tul == lowH(shr(v, (2 * w) - l))
                r == (tl + shl(tul, w) - tul) % M(w)
                r1 == (r - Mask(r > tl /\ tul = 0, w)) % M(w)
            IN  Canon((r1 + Mask(r1 < tl /\ tul # 0, w)) % M(w), w)
       [] l > w /\ l < 2 * w ->
            LET tl == lowH(shl(v, l - w))  tul == lowH(shr(v, (2 * w) - l))  tuu == shr(v, (3 * w) - l)
                top == shl(tl, w)
                r == (shl((tl + tul) % M(w), w) - tuu - tul) % M(w)
                r1 == (r - Mask(r > top /\ tul = 0, w)) % M(w)
            IN  Canon((r1 + Mask(r1 < top /\ tul # 0, w)) % M(w), w)
       [] l >= 2 * w /\ l < 3 * w ->
            LET x == lowH(IF l = 2 * w THEN v ELSE shl(v, l - (2 * w)))
                tl == (shl(x, w) - x) % M(w)  tu == shr(v, (3 * w) - l)
                r == (tl - tu) % M(w)
            IN  Canon((r - Mask(r > tl, w)) % M(w), w)
       [] l = 3 * w -> Canon((p - v) % M(w), w)
       [] l > 3 * w /\ l < 4 * w ->
            LET tl == shl(v, l - (3 * w))  tu == shr(v, (5 * w) - l)
                r == (tl + shl(tu, w) - tu) % M(w)
                r1 == (r + Mask(r < tl, w)) % M(w)
            IN  Canon((p - Canon(r1, w)) % M(w), w)
       [] l = 4 * w ->
            LET tl == lowH(v)  tul == lowH(shr(v, w))
            IN  sub(sub(tul, shl(tl, w)), shl(tul, w))
       [] l > 4 * w /\ l < 5 * w ->
            LET tl == lowH(shl(v, l - (4 * w)))  tul == lowH(shr(v, (5 * w) - l))  tuu == shr(v, (6 * w) - l)
            IN  sub(sub((tul + tuu) % M(w), shl(tl, w)), shl(tul, w))
       [] l = 5 * w ->
            LET tl == lowH(v)  tu == shr(v, w)
            IN  sub((tl + tu) % M(w), shl(tl, w))
       [] OTHER ->
            LET tl == (lowH(v) * 2 ^ (l - (5 * w))) % H(w)  tu == shr(v, (6 * w) - l)
                r == (tl + tu - shl(tl, w)) % M(w)
            IN  (r - Mask(r > tu, w)) % M(w)

(* --------------------------- Montgomery field -------------------------- *)
PM(c) == (c.k * 2 ^ c.s) + 1
RM(c) == 2 ^ c.b
Sg(x, bits) == LET y == x % 2 ^ bits IN IF y >= 2 ^ (bits - 1) THEN y - 2 ^ bits ELSE y
FloorShr(x, k) == x \div 2 ^ k          \* \div rounds down in TLA+
SRedc(x, c) ==
  LET a0 == x % RM(c)
      a1 == Sg(FloorShr(x, c.b), c.b)
      m  == Sg(a0 - ((a0 * c.k) * 2 ^ c.s), c.b)
      t1 == FloorShr(((m * c.k) * 2 ^ c.s) + m, c.b)
  IN  Sg(a1 - t1, c.b)
Redc(x, c) ==
  LET t0 == x % RM(c)
      m  == (((t0 * c.k) * 2 ^ c.s) - t0) % RM(c)
      t  == (x + ((m * c.k) * 2 ^ c.s) + m) \div RM(c)
  IN  IF t > PM(c) THEN t - PM(c) ELSE t
AddM(a, b, c) == LET s == a + b IN IF s >= PM(c) THEN s - PM(c) ELSE IF s <= -PM(c) THEN s + PM(c) ELSE s
SubM(a, b, c) == LET s == a - b IN IF s >= PM(c) THEN s - PM(c) ELSE IF s <= -PM(c) THEN s + PM(c) ELSE s
(* the inverse of R modulo P, by search *)
InvR(c) == CHOOSE i \in 1..(PM(c) - 1) : (i * (RM(c) % PM(c))) % PM(c) = 1

(* -------------------------------- machine ------------------------------ *)
P == IF field.kind = "wrap" THEN PW(field.w) ELSE PM(field)
Init == /\ field \in {[kind |-> "wrap", w |-> w] : w \in Ws}
                     \cup {[kind |-> "mont", b |-> MontOf[m].b, k |-> MontOf[m].k, s |-> MontOf[m].s] : m \in Monts}
        /\ acc = 1 /\ ghost = 1 /\ last = "init"
Canonical == 0..(P - 1)
Signed == (-(P - 1))..(P - 1)
Load(x) == acc' = x /\ ghost' = x % P /\ last' = "load" /\ UNCHANGED field
Wrap(op, x, l) ==
  /\ field.kind = "wrap"
  /\ LET w == field.w
     IN  CASE op = "add" -> acc' = WAdd(acc, x, w) /\ ghost' = (ghost + x) % P
           [] op = "sub" -> acc' = WSub(acc, x, w) /\ ghost' = (ghost - x) % P
           [] op = "mul" -> acc' = WMul(acc, x, w) /\ ghost' = (ghost * x) % P
           [] op = "shl" -> acc' = WShl(acc, l, w) /\ ghost' = (ghost * 2 ^ l) % P
  /\ last' = op /\ UNCHANGED field
Mont(op, x) ==
  /\ field.kind = "mont"
  /\ CASE op = "add" -> acc' = AddM(acc, x, field) /\ ghost' = (ghost + x) % P
       [] op = "sub" -> acc' = SubM(acc, x, field) /\ ghost' = (ghost - x) % P
       [] op = "mulsredc" -> acc' = SRedc(acc * x, field) /\ ghost' = (ghost * x * InvR(field)) % P
       [] op = "mulredc" -> acc >= 0 /\ x >= 0 /\ acc' = Redc(acc * x, field) /\ ghost' = (ghost * x * InvR(field)) % P
  /\ last' = op /\ UNCHANGED field
Next == \/ \E x \in Canonical : Load(x) \/ \E op \in {"add", "sub", "mul"} : Wrap(op, x, 0)
        \/ field.kind = "wrap" /\ \E l \in 0..((6 * field.w) - 1) : Wrap("shl", 0, l)
        \/ field.kind = "mont" /\ \E x \in Signed : Load(x) \/ \E op \in {"add", "sub", "mulsredc", "mulredc"} : Mont(op, x)
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ----------------------------- *)
Right == acc % P = ghost
Range_ == IF field.kind = "wrap" THEN acc \in Canonical ELSE acc \in Signed
(* the unsigned reduction gives the canonical representative *)
RedcCanonical == last = "mulredc" => acc \in Canonical
=============================================================================
