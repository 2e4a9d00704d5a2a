------------------------------ MODULE Circuit ------------------------------
(***************************************************************************)
(* Circuits of any depth over a register file.  The torus has M points, a   *)
(* bit is +-Mu plus noise.  A bootstrapped gate outputs +-Mu by the sign of *)
(* its linear form with fresh noise anywhere in -E..E (key switch and       *)
(* rounding noise inside it in KS..); a multiplexer is the sum of two       *)
(* bootstrapped halves.  The reachable states are those of circuits of      *)
(* every length, with aliasing; the invariant says that each register       *)
(* decrypts to the bit the plain circuit computes and that the noise never  *)
(* leaves the bound of its last gate, whatever the depth.                   *)
(***************************************************************************)
EXTENDS Gates, FiniteSets

CONSTANTS M, Mu, E, K, R     \* torus, bit, output noise, pre-bootstrap noise, registers
VARIABLES ph, bit
vars == <<ph, bit>>

Regs == 1..R
Noise == (-E)..E
Pre == {-K, K}               \* the extremes decide the sign
W(x) == x % M
Centre(x) == IF W(x) >= M \div 2 THEN W(x) - M ELSE W(x)
Enc(b) == IF b = 1 THEN Mu ELSE -Mu
Sign(x) == IF W(x) < M \div 2 THEN Mu ELSE -Mu

Init == /\ bit \in [Regs -> {0, 1}]
        /\ ph \in {[r \in Regs |-> W(Enc(bit[r]) + e[r])] : e \in [Regs -> {-E, 0, E}]}

Put(r, p, b) == ph' = [ph EXCEPT ![r] = W(p)] /\ bit' = [bit EXCEPT ![r] = b]

Const == \E r \in Regs, b \in {0, 1} : Put(r, Enc(b), b)
Not == \E r, a \in Regs : Put(r, -ph[a], NotB(bit[a]))
Copy == \E r, a \in Regs : Put(r, ph[a], bit[a])
Gate == \E g \in Bin, r, a, b \in Regs, k \in Pre, e \in Noise :
          LET f == Form(g)
          IN  Put(r, Sign((f[1] * ph[a]) + (f[2] * ph[b]) + (f[3] * Mu) + k) + e, Truth(g, bit[a], bit[b]))
MuxG == \E r, s, a, b \in Regs, k1, k0 \in Pre, e1, e0 \in {-E, E}, neg \in {1, -1} :
          Put(r, neg * ((Sign(ph[s] + ph[a] - Mu + k1) + e1) + (Sign(ph[b] - ph[s] - Mu + k0) + e0) + Mu),
              IF neg = 1 THEN Mux(bit[s], bit[a], bit[b]) ELSE NotB(Mux(bit[s], bit[a], bit[b])))
Next == Const \/ Not \/ Copy \/ Gate \/ MuxG
Spec == Init /\ [][Next]_vars

Decrypts == \A r \in Regs : (IF Centre(ph[r]) > 0 THEN 1 ELSE 0) = bit[r]
Bounded == \A r \in Regs : LET d == Centre(ph[r] - Enc(bit[r])) IN d >= -2 * E /\ d <= 2 * E
=============================================================================
