----------------------------- MODULE ConfigTrace -----------------------------
(* C21.  Operations of builds with other options than the default ones.      *)
(* Torus values are integers modulo 2^24 (the leading bits of the words);    *)
(* the parameters are those the build declares, the noise bounds the table   *)
(* below (computed from the published parameters of each set).               *)
EXTENDS TraceBase, Levels, Gates, Ring
VARIABLES conf, lev, ksw, keys, reg
vars == <<l, conf, lev, ksw, keys, reg>>
None == [x \in {} |-> 0]

M24 == 16777216
Half == 8388608
NegT(x) == (M24 - x) % M24
Gap(a, b) == LET d == (a - b) % M24 IN IF d > Half THEN M24 - d ELSE d
CloseTo(a, b, t) == Gap(a, b) <= t
ToSigned(x) == IF x >= Half THEN x - M24 ELSE x

(* one standard deviation of the noise, in units of 2^-24 (rounded up):      *)
(* fresh samples of the levels; a product; one step and a whole rotation     *)
(* from lvl0 and lvlhalf; the switches; a product with a bootstrapped        *)
(* selector                                                                  *)
Bounds(e0, eh, e1, e2, p1, p2, s01, sh1, r01, rh1, r02, k10, k1h, k20, k2h, k21, sel) ==
  [sel |-> sel,
   fresh |-> [lvl0 |-> e0, lvlhalf |-> eh, lvl1 |-> e1, lvl2 |-> e2],
   prod |-> [lvl1 |-> p1, lvl2 |-> p2],
   step |-> [lvl0 |-> [lvl1 |-> s01, lvl2 |-> p2], lvlhalf |-> [lvl1 |-> sh1, lvl2 |-> p2]],
   rot |-> [lvl0 |-> [lvl1 |-> r01, lvl2 |-> r02], lvlhalf |-> [lvl1 |-> rh1, lvl2 |-> r02]],
   sw |-> [ x \in {"10", "1h", "20", "2h", "21"} |->
              CASE x = "10" -> k10 [] x = "1h" -> k1h [] x = "20" -> k20 [] x = "2h" -> k2h [] x = "21" -> k21]]
Sigma ==
  [ conc   |-> Bounds(1553, 128, 1, 1, 3045, 2, 3045, 3045, 68610, 75000, 28, 156755, 12117, 139909, 14890, 61, 262000),
    rs     |-> Bounds(55, 128, 1, 1, 634, 1, 634, 634, 12015, 13134, 1, 38022, 14840, 10998, 16302, 10, 0),
    tern   |-> Bounds(512, 128, 1, 1, 837, 1, 1107, 837, 26487, 21564, 1, 38133, 12117, 53928, 16302, 67, 99000),
    ternc  |-> Bounds(512, 128, 1, 1, 837, 1, 1508, 837, 36986, 21564, 1, 38133, 12117, 53928, 16302, 67, 99000),
    opt    |-> Bounds(1553, 128, 1, 1, 871, 1, 871, 871, 20191, 22072, 1, 114236, 12117, 161553, 17192, 61, 89000),
    fftw   |-> Bounds(1553, 128, 1, 1, 871, 1, 871, 871, 20191, 22072, 1, 114236, 12117, 161553, 17192, 61, 89000),
    norand |-> Bounds(1553, 128, 1, 1, 871, 1, 871, 871, 20191, 22072, 1, 114236, 12117, 161553, 17192, 61, 89000),
    bundle |-> Bounds(1553, 128, 1, 1, 871, 1, 1344, 1344, 23967, 26199, 1, 114236, 12117, 161553, 17192, 61, 89000) ]
Bound(s) == (8 * s) + 4
Sg == Sigma[conf]

(* -------------------------------------------------------- the parameters *)
Conf == Is("conf") /\ Chk(<<"harness: build", Ev.name>>, Ev.name \in DOMAIN Sigma) /\ conf' = Ev.name /\ UNCHANGED <<lev, ksw, keys, reg>>
Level == /\ Is("level")
         /\ Chk(<<"ring degree is a power of two", Ev.lvl>>, Ev.nbit = 0 \/ Ev.n = 2 ^ Ev.nbit)
         /\ Chk(<<"digits fit the word", Ev.lvl>>, Ev.l * Ev.bg <= Ev.w)
         /\ Chk(<<"base of the decomposition", Ev.lvl>>, Ev.Bg = 2 ^ Ev.bg)
         /\ Chk(<<"secret values", Ev.lvl>>, <<Ev.kmin, Ev.kmax>> \in {<<0, 1>>, <<-1, 1>>})
         /\ Chk(<<"mu is an eighth of the torus", Ev.lvl>>, Ev.mu = M24 \div 8)
         /\ Chk(<<"plain space fills the torus, or its half", Ev.lvl>>, Ev.delta * Ev.pmod \in {M24, Half})
         /\ lev' = (Ev.lvl :> Ev) @@ lev
         /\ UNCHANGED <<conf, ksw, keys, reg>>
Ks == /\ Is("ks")
      /\ Chk(<<"switching digits fit the word", Ev.ks>>, Ev.t * Ev.bb <= lev[Ev.dom].w)
      /\ ksw' = (Ev.ks :> Ev) @@ ksw
      /\ UNCHANGED <<conf, lev, keys, reg>>
(* every secret value occurs about equally often (eight deviations)          *)
KeyEv == /\ Is("key")
         /\ \E p \in {lev[Ev.lvl]} :
              /\ Chk(<<"key length", Ev.lvl>>, Len(Ev.vals) = p.n * p.k)
              /\ Chk(<<"secret values", Ev.lvl>>, \A i \in 1..Len(Ev.vals) : Ev.vals[i] \in p.kmin..p.kmax)
              /\ (\A v \in p.kmin..p.kmax :
                   Chk(<<"distribution of the secret", Ev.lvl, v>>,
                       AbsI((Count(Ev.vals, LAMBDA x : x = v) * (1 + p.kmax - p.kmin)) - Len(Ev.vals)) <= 12 * ISqrt(Len(Ev.vals)))) = TRUE
         /\ keys' = (Ev.lvl :> Ev.vals) @@ keys
         /\ UNCHANGED <<conf, lev, ksw, reg>>
Same == Is("same") /\ Chk(<<"same", Ev.what>>, Ev.ok) /\ UNCHANGED <<conf, lev, ksw, keys, reg>>
Samp == /\ Is("samp")
        /\ Chk(<<"harness: phase", Ev.lvl>>, Phase(Ev.c, keys[Ev.lvl], lev[Ev.lvl].w) = Ev.ph)
        /\ UNCHANGED <<conf, lev, ksw, keys, reg>>

(* -------------------------------------------------------------- encryption *)
BitOf(ph) == IF ph < Half /\ ph > 0 THEN 1 ELSE 0
Bits == /\ Is("bits")
        /\ (\A i \in 1..Len(Ev.m) :
             /\ Chk(<<"phase of an encryption", Ev.lvl, Ev.what, i>>,
                    CloseTo(Ev.ph[i], IF Ev.m[i] = 1 THEN M24 \div 8 ELSE NegT(M24 \div 8), Bound(Sg.fresh[Ev.lvl])))
             /\ Chk(<<"decryption", Ev.lvl, Ev.what, i>>, Ev.dec[i] = Ev.m[i])) = TRUE
        /\ UNCHANGED <<conf, lev, ksw, keys, reg>>
(* the leading bits of a phase just above zero may all be zero               *)
Decode == /\ Is("decode")
          /\ (\A i \in 1..Len(Ev.ph) : Chk(<<"decryption of a phase", Ev.lvl, Ev.ph[i]>>, Ev.ph[i] = 0 \/ Ev.dec[i] = BitOf(Ev.ph[i]))) = TRUE
          /\ UNCHANGED <<conf, lev, ksw, keys, reg>>
Ints == /\ Is("ints")
        /\ \E p \in {lev[Ev.lvl]} :
             (\A i \in 1..Len(Ev.m) :
               /\ Chk(<<"phase of an integer", Ev.lvl, Ev.what, Ev.m[i]>>, CloseTo(Ev.ph[i], (Ev.m[i] * p.delta) % M24, Bound(Sg.fresh[Ev.lvl])))
               /\ Chk(<<"decrypted integer", Ev.lvl, Ev.what, Ev.m[i]>>, Ev.dec[i] % p.pmod = Ev.m[i])) = TRUE
        /\ UNCHANGED <<conf, lev, ksw, keys, reg>>

(* ---------------------------------------------------------------- products *)
Turned(in, a, out, t, label) ==
  (\A j \in 0..(Len(in) - 1) : Chk(<<label, "turn", a, "coefficient", j>>, CloseTo(out[j + 1], XaiAt(in, a, j, NegT), t))) = TRUE
Prod == /\ Is("prod")
        /\ Chk("size", Len(Ev.in) = lev[Ev.lvl].n /\ Len(Ev.out) = Len(Ev.in))
        /\ IF Ev.c = 0
           THEN (\A j \in 1..Len(Ev.out) : Chk(<<"product with zero", Ev.lvl, j>>, CloseTo(Ev.out[j], 0, Bound(Sg.prod[Ev.lvl])))) = TRUE
           ELSE Turned(Ev.in, IF Ev.c = 1 THEN Ev.s ELSE Ev.s + lev[Ev.lvl].n, Ev.out, Bound(Sg.prod[Ev.lvl]), <<"product", Ev.lvl, Ev.c>>)
        /\ UNCHANGED <<conf, lev, ksw, keys, reg>>
Dots(a, v) == FoldLeft(LAMBDA s, i : s + (a[i] * v[i]), 0, [i \in 1..Len(a) |-> i])
StepEv == /\ Is("step")
          /\ Chk("size", Len(Ev.in) = lev[Ev.lvl].n /\ Len(Ev.out) = Len(Ev.in))
          /\ Turned(Ev.in, Dots(Ev.a, Ev.v) % (2 * lev[Ev.lvl].n), Ev.out, Bound(Sg.step[Ev.dom][Ev.lvl]), <<"rotation step", Ev.dom, Ev.lvl, Ev.v>>)
          /\ UNCHANGED <<conf, lev, ksw, keys, reg>>

(* --------------------------------------------------------------- rotations *)
BitsFor(outs) == CHOOSE b \in 0..10 : 2 ^ b >= outs /\ (b = 0 \/ 2 ^ (b - 1) < outs)
Amount(in, key, nbit, bw) ==
  LET g == 1 + nbit - bw
      cell == 2 ^ (24 - g)
      up(x) == ((x + (cell \div 2)) \div cell) % (2 ^ g)
      mask == Dots([i \in 1..Len(key) |-> up(in[i])], key)
      body == in[Len(key) + 1] \div cell
  IN  ((mask - body) * 2 ^ bw) % (2 ^ (nbit + 1))
Rotate == /\ Is("rotate")
          /\ Chk("size", Len(Ev.in) = Len(keys[Ev.dom]) + 1 /\ Len(Ev.r) = lev[Ev.lvl].n)
          /\ \E x \in {Amount(Ev.in, keys[Ev.dom], lev[Ev.lvl].nbit, BitsFor(Ev.outs))} :
               Turned(Ev.tv, x, Ev.r, Bound(Sg.rot[Ev.dom][Ev.lvl]), <<"blind rotation", Ev.dom, Ev.lvl, Ev.what, Ev.outs>>)
          /\ UNCHANGED <<conf, lev, ksw, keys, reg>>
Lut == /\ Is("lut")
       /\ Chk("outputs", Len(Ev.ph) = Ev.outs)
       /\ \E x \in {Amount(Ev.in, keys[Ev.dom], lev[Ev.lvl].nbit, BitsFor(Ev.outs))} :
            (\A o \in 1..Ev.outs : Chk(<<"table entry", Ev.dom, Ev.lvl, "amount", x, "output", o>>,
                                       CloseTo(Ev.ph[o], XaiAt(Ev.tv, x, o - 1, NegT), Bound(Sg.rot[Ev.dom][Ev.lvl])))) = TRUE
       /\ UNCHANGED <<conf, lev, ksw, keys, reg>>
Switch == /\ Is("switch")
          /\ (\A i \in 1..Len(Ev.in) : Chk(<<"key switch", Ev.ks, i, Ev.in[i], Ev.out[i]>>, CloseTo(Ev.out[i], Ev.in[i], Bound(Sg.sw[Ev.ks])))) = TRUE
          /\ UNCHANGED <<conf, lev, ksw, keys, reg>>

(* -------------------------------------------------------------------- gates *)
Begin == /\ Is("begin")
         /\ Chk("initial bits", Ev.b0 = <<0, 1, 0, 1>> /\ Ev.b1 = <<0, 1, 0, 1>>)
         /\ reg' = [lvl0 |-> Ev.b0, lvl1 |-> Ev.b1]
         /\ UNCHANGED <<conf, lev, ksw, keys>>
Result(R) ==
  CASE Ev.op = "ENC" -> Ev.a
    [] Ev.op = "NOT" -> NotB(R[Ev.a + 1])
    [] Ev.op = "COPY" -> R[Ev.a + 1]
    [] Ev.op = "ONE" -> 1
    [] Ev.op = "ZERO" -> 0
    [] Ev.op = "MUX" -> Mux(R[Ev.a + 1], R[Ev.b + 1], R[Ev.c + 1])
    [] Ev.op = "NMUX" -> NotB(Mux(R[Ev.a + 1], R[Ev.b + 1], R[Ev.c + 1]))
    [] Ev.op \in Bin -> Truth(Ev.op, R[Ev.a + 1], R[Ev.b + 1])
(* two rotations (a multiplexer adds two), and at level 0 the switch down    *)
GateBound(lv) == LET s == (2 * Sg.rot.lvl0.lvl1) + (IF lv = "lvl0" THEN Sg.sw["10"] ELSE 0) IN 8 * s
Gate == /\ Is("gate")
        /\ \E v \in {Result(reg[Ev.lv])} :
             /\ reg' = [reg EXCEPT ![Ev.lv][Ev.r + 1] = v]
             /\ Chk(<<"phase after", Ev.op, Ev.lv, Ev.ph>>, CloseTo(Ev.ph, IF v = 1 THEN M24 \div 8 ELSE NegT(M24 \div 8), GateBound(Ev.lv)))
             /\ Chk(<<"registers after", Ev.op, Ev.lv, "expected", reg'>>, Ev.b0 = reg'.lvl0 /\ Ev.b1 = reg'.lvl1)
        /\ UNCHANGED <<conf, lev, ksw, keys>>

(* a circuit-bootstrapped selector chooses; each of its (k+1)*l rows carries  *)
(* a switched sample, multiplied with digits up to half the base             *)
SelBound == 7 * Sg.sel
Sel == /\ Is("sel")
       /\ (\A j \in 1..Len(Ev.out) : Chk(<<"bootstrapped selector", Ev.b, j>>, CloseTo(Ev.out[j], IF Ev.b = 1 THEN Ev.c1[j] ELSE Ev.c0[j], SelBound))) = TRUE
       /\ UNCHANGED <<conf, lev, ksw, keys, reg>>

Init == TraceInit /\ conf = "" /\ lev = None /\ ksw = None /\ keys = None /\ reg = None
Next == Conf \/ Level \/ Ks \/ KeyEv \/ Same \/ Samp \/ Bits \/ Decode \/ Ints \/ Prod \/ StepEv \/ Rotate \/ Lut \/ Switch \/ Begin \/ Gate \/ Sel
Spec == Init /\ [][Next]_vars
=============================================================================
