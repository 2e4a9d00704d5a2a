---------------------------- MODULE EvalKeysTrace ----------------------------
(* C15.  Histories of evaluation keys of the real library.  obj maps slots   *)
(* to digests of what they hold; made remembers, per digest, the secret key  *)
(* it was generated from and how (a private key made under a name of the     *)
(* circuit bootstrap by hand holds the function it was given).  Rows of the keys are decrypted and judged here.   *)
EXTENDS TraceBase, Levels

VARIABLES obj, made, keys
vars == <<l, obj, made, keys>>
None == [c \in {} |-> ""]
Fn(s) == LET at == [n \in {s[i][1] : i \in 1..Len(s)} |-> CHOOSE i \in 1..Len(s) : s[i][1] = n]
         IN  [n \in DOMAIN at |-> s[at[n]][2]]
Holds(o) == IF o \in DOMAIN obj THEN obj[o] ELSE None
With(f, k, v) == [n \in DOMAIN f \cup {k} |-> IF n = k THEN v ELSE f[n]]
Without(f, k) == [n \in DOMAIN f \ {k} |-> f[n]]
Diff(f, g) == {n \in DOMAIN f \cup DOMAIN g : n \notin DOMAIN f \/ n \notin DOMAIN g \/ f[n] # g[n]}
(* every object is observed after every operation, through the members and   *)
(* through the getters                                                      *)
Observed(want) ==
  /\ \A o \in DOMAIN want :
       \E got \in {Fn(Ev.snap[o + 1])} :
         Chk(<<Ev.ev, "object", o, "slots changed, gained or lost:", Diff(want[o], got)>>, got = want[o])
  /\ \A o \in DOMAIN want : Chk(<<"getters of", o>>, Fn(Ev.got[o + 1]) = Fn(Ev.snap[o + 1]))

Key == /\ Is("key") /\ keys' = With(keys, <<Ev.sk, Ev.lvl>>, Ev.vals) /\ UNCHANGED <<obj, made>>
New == Is("new") /\ obj' = [o \in 0..(Ev.objs - 1) |-> None] /\ UNCHANGED <<made, keys>>
Emplace == /\ Is("emplace")
           /\ \A i \in 1..Len(Ev.slots) : Chk(<<"freshly generated", Ev.slots[i]>>, Ev.digs[i] \notin DOMAIN made)
           /\ \A i \in 1..Len(Ev.slots), j \in 1..Len(Ev.slots) : Chk("two keys alike", i = j \/ Ev.digs[i] # Ev.digs[j])
           /\ \E want \in {[obj EXCEPT ![Ev.obj] = FoldLeft(LAMBDA f, i : With(f, Ev.slots[i], Ev.digs[i]), @, [i \in 1..Len(Ev.slots) |-> i])]} :
                Observed(want) /\ obj' = want
           /\ made' = FoldLeft(LAMBDA f, d : With(f, d, [sk |-> Ev.sk, how |-> Ev.how]), made, Ev.digs)
           /\ UNCHANGED keys
(* the transform of the bootstrapping key of the same pair, computed by the   *)
(* driver from what the getter hands out                                    *)
Convert == /\ Is("convert")
           /\ Chk(<<"converted", Ev.slot, "source was held">>, Ev.source \in DOMAIN Holds(Ev.obj))
           /\ \E want \in {[obj EXCEPT ![Ev.obj] = With(@, Ev.slot, Ev.ref)]} :
                Observed(want) /\ obj' = want
           /\ made' = With(made, Ev.ref, made[obj[Ev.obj][Ev.source]])
           /\ UNCHANGED keys
Share == /\ Is("share")
         /\ \E want \in {[obj EXCEPT ![Ev.obj] = obj[Ev.from]]} : Observed(want) /\ obj' = want
         /\ Chk("copies refer to the same keys", Ev.same)
         /\ UNCHANGED <<made, keys>>
Drop == /\ Is("drop")
        /\ \E want \in {[obj EXCEPT ![Ev.obj] = Without(@, Ev.slot)]} : Observed(want) /\ obj' = want
        /\ UNCHANGED <<made, keys>>

(* ---- what the keys contain --------------------------------------------- *)
Sk(o, slot) == made[obj[o][slot]].sk
KeyOf(o, slot, lv) == keys[<<Sk(o, slot), lv>>]
Coef == /\ Is("coef")
        /\ Chk(<<"ring phase", Ev.lvl, Ev.j>>, RingPhase(Ev.a, Ev.b, keys[<<Ev.sk, Ev.lvl>>], Ev.j, Lv(Ev.lvl).w) = Ev.ph)
        /\ UNCHANGED <<obj, made, keys>>
Sample == /\ Is("sample")
          /\ Chk(<<"sample phase", Ev.lvl>>, Phase(Ev.c, IF Ev.lvl = "sub" THEN SubSeq(keys[<<Ev.sk, "lvl2">>], 1, 1024) ELSE keys[<<Ev.sk, Ev.lvl>>], Lv(IF Ev.lvl = "sub" THEN "lvl1" ELSE Ev.lvl).w) = Ev.ph)
          /\ UNCHANGED <<obj, made, keys>>
From == [lvl01 |-> "lvl0", lvlh1 |-> "lvlhalf", lvl02 |-> "lvl0", lvlh2 |-> "lvlhalf",
         lvl10 |-> "lvl1", lvl1h |-> "lvl1", lvl20 |-> "lvl2", lvl2h |-> "lvl2", lvl21 |-> "lvl2", lvl22 |-> "lvl2", lvl31 |-> "lvl3", lvl11 |-> "lvl1"]
To == [lvl01 |-> "lvl1", lvlh1 |-> "lvl1", lvl02 |-> "lvl2", lvlh2 |-> "lvl2",
       lvl10 |-> "lvl0", lvl1h |-> "lvlhalf", lvl20 |-> "lvl0", lvl2h |-> "lvlhalf", lvl21 |-> "lvl1", lvl22 |-> "lvl2", lvl31 |-> "lvl1", lvl11 |-> "lvl1"]
Base == [lvl10 |-> 2, lvl1h |-> 3, lvl20 |-> 2, lvl2h |-> 2, lvl21 |-> 3, lvl22 |-> 1, lvl31 |-> 2, lvl11 |-> 4]
Dec == [lvl1 |-> [l |-> 3, bg |-> 6], lvl2 |-> [l |-> 4, bg |-> 9]]
(* fresh noise, and the rounding of the transform domain for 64-bit words    *)
Tol(lv) == IF Lv(lv).w = 64 THEN Add(MaxNoise(lv), Pow2(17, 4)) ELSE Add(MaxNoise(lv), Pow2(4, Limbs(lv)))

(* row set of a bootstrapping key: the gadget form of one key bit            *)
Bit ==
  /\ Is("bit")
  /\ \E lv \in {To[Ev.pair]} : \E ks \in {KeyOf(Ev.obj, Ev.slot, lv)}, D \in {Dec[lv]}, n \in {Lv(lv).n}, zero \in {Zero(Limbs(lv))}, tol \in {Tol(lv)} :
     \E bit \in {KeyOf(Ev.obj, Ev.slot, From[Ev.pair])[Ev.i + 1]} :
       /\ Chk("rows", Len(Ev.rows) = 2 * D.l)
       /\ \A i \in 1..D.l :
            \E h \in {Pow2(Lv(lv).w - (i * D.bg), Limbs(lv))} :
            \E val \in {[v \in {-1, 0, 1} |-> IF bit = 0 THEN zero ELSE MulC(h, v)]} :
              /\ \A j \in 1..n :
                   Chk(<<"mask row of", Ev.slot, "position", Ev.i, "row", i, "coefficient", j - 1>>, Near(Ev.rows[i][j], val[-ks[j]], tol))
              /\ \A j \in 1..n :
                   Chk(<<"body row of", Ev.slot, "position", Ev.i, "row", i, "coefficient", j - 1>>, Near(Ev.rows[D.l + i][j], val[IF j = 1 THEN 1 ELSE 0], tol))
  /\ UNCHANGED <<obj, made, keys>>

(* rows of a key switching key: <<i, j, u>> encrypts (u+1) s_i at digit j    *)
Switch ==
  /\ Is("switch")
  /\ \E lv \in {To[Ev.pair]}, dom \in {KeyOf(Ev.obj, Ev.slot, From[Ev.pair])}, tol \in {MaxNoise(To[Ev.pair])} :
       \A r \in 1..Len(Ev.at) :
         LET a == Ev.at[r]
             s == dom[a[1] + Ev.off + 1]
             want == MulC(Pow2(Lv(lv).w - (a[2] + 1) * Base[Ev.pair], Limbs(lv)), s * (a[3] + 1))
         IN  Chk(<<"row", a, "of", Ev.slot, "encrypts", s>>, Near(Ev.ph[r], want, tol))
  /\ UNCHANGED <<obj, made, keys>>

(* rows of a private switching key: (u+1) s_i f at digit j, -f at the end    *)
Private ==
  /\ Is("private")
  /\ \E lv \in {To[Ev.pair]}, dom \in {KeyOf(Ev.obj, Ev.slot, From[Ev.pair])}, tol \in {MaxNoise(To[Ev.pair])} :
     \E s \in {IF Ev.i = Ev.len THEN -1 ELSE dom[Ev.i + 1]} :
     \E f \in {CASE made[obj[Ev.obj][Ev.slot]].how = "named" -> Ev.poly
                 [] Ev.name = "minus key" -> [j \in 1..Lv(lv).n |-> -KeyOf(Ev.obj, Ev.slot, lv)[j]]
                 [] Ev.name = "one" -> [j \in 1..Lv(lv).n |-> IF j = 1 THEN 1 ELSE 0]} :
     \E unit \in {Pow2(Lv(lv).w - (Ev.j + 1) * Base[Ev.pair], Limbs(lv))} :
       \A j \in 1..Lv(lv).n :
         Chk(<<"row", <<Ev.i, Ev.j, Ev.u>>, "of", Ev.slot, "coefficient", j - 1>>,
             Near(Ev.row[j], MulC(unit, (Ev.u + 1) * s * f[j]), tol))
  /\ UNCHANGED <<obj, made, keys>>

Init == TraceInit /\ obj = None /\ made = None /\ keys = None
Next == Key \/ New \/ Emplace \/ Convert \/ Share \/ Drop \/ Coef \/ Sample \/ Bit \/ Switch \/ Private
Spec == Init /\ [][Next]_vars
=============================================================================
