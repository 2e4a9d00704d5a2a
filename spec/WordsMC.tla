------------------------------ MODULE WordsMC ------------------------------
(* Words against integers: every pair of 16-bit words drawn from a set of  *)
(* corner limbs, and every 2-limb word over a smaller set, is compared     *)
(* with arithmetic on the integer the limbs denote (31 bits at most).      *)
EXTENDS Words, TLC
VARIABLES a, b
Corner == {0, 1, 2, 3, 127, 128, 255, 256, 4095, 32766, 32767, 32768, 32769, 40000, 65533, 65534, 65535}
Mult == {-32767, -3, -2, -1, 0, 1, 2, 3, 5, 32767}
Init == /\ a \in {<<x>> : x \in Corner} \cup {<<x, y>> : x \in {0, 1, 32767, 32768, 65535}, y \in {0, 1, 255, 32767, 32768, 65535}}
        /\ b \in {<<x>> : x \in Corner} \cup {<<x, y>> : x \in {0, 1, 32767, 32768, 65535}, y \in {0, 1, 255, 32767, 32768, 65535}}
Next == UNCHANGED <<a, b>>
(* two-limb words are checked through a 30-bit residue: Low30 is a homomorphism *)
M30 == 1073741824
L30(w) == (IF Len(w) = 1 THEN w[1] ELSE w[1] + (w[2] % 16384) * B)
Add1 == (Len(a) = 1 /\ Len(b) = 1) =>
          /\ Add(a, b)[1] = (a[1] + b[1]) % B
          /\ Sub(a, b)[1] = (a[1] - b[1]) % B
          /\ \A c \in Mult : MulC(a, c)[1] = (a[1] * c) % B
          /\ \A k \in 0..15 : Shr(a, k)[1] = a[1] \div P2(k) /\ Shl(a, k)[1] = (a[1] * P2(k)) % B
          /\ Lt(a, b) <=> a[1] < b[1]
Add2 == (Len(a) = 2 /\ Len(b) = 2) =>
          /\ L30(Add(a, b)) = (L30(a) + L30(b)) % M30
          /\ L30(Sub(a, b)) = (L30(a) - L30(b)) % M30
          /\ Add(Sub(a, b), b) = a
          /\ Add(a, Neg(a)) = Zero(2)
          /\ \A k \in 1..30 : Shr(Shl(a, k), k) = [i \in 1..2 |-> Shr(Shl(a, k), k)[i]]
                              /\ Shl(Shr(a, k), k) = Sub(a, Sub(a, Shl(Shr(a, k), k)))
                              /\ Lt(Sub(a, Shl(Shr(a, k), k)), Pow2(k, 2))
                              /\ Top(a, k) = (IF k <= 16 THEN a[2] \div P2(16 - k) ELSE (a[2] * P2(k - 16)) + (a[1] \div P2(32 - k)))
          /\ MulC(a, 3) = Add(a, Add(a, a)) /\ MulC(a, -2) = Neg(Add(a, a))
          /\ Near(a, b, Abs(Sub(a, b)))
(* the general forms agree with the unrolled ones; extension by a limb *)
Gen == Len(a) = Len(b) =>
         /\ GenAdd(a, b) = Add(a, b) /\ GenSub(a, b) = Sub(a, b)
         /\ \A c \in {0, 1, 3, 32767} : GenMul(a, c) = MulC(a, c)
         /\ LET x == a \o b  y == b \o a IN Len(x) = 4 =>
              GenAdd(x, y) = Add(x, y) /\ GenSub(x, y) = Sub(x, y) /\ GenMul(x, 32767) = MulC(x, 32767)
                /\ MulC(x, -5) = Neg(Add(x, MulC(x, 4)))
Inv == Add1 /\ Add2 /\ Gen
=============================================================================
