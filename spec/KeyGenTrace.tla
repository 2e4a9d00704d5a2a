---------------------------- MODULE KeyGenTrace ----------------------------
(* C16.  Secret keys of the real library, level by level: value sets,        *)
(* frequencies, every value at every position, independence of the           *)
(* coefficients within a level, between levels, between keys, threads and    *)
(* processes, and lookups.                                                   *)
EXTENDS TraceBase, Levels, FiniteSets, SequencesExt

VARIABLES last,   \* last stretch and number of stretches so far
          keys,   \* <<key, level>> -> values, for the keys judged as a sample
          total,  \* level -> number of each value so far (value + 2)
          seen,   \* level -> position -> values that occurred
          objs,   \* object -> digests per level, in histories
          known   \* every level digest ever generated
vars == <<l, last, keys, total, seen, objs, known>>
None == [c \in {} |-> ""]
With(f, k, v) == [n \in DOMAIN f \cup {k} |-> IF n = k THEN v ELSE f[n]]
Names == <<"lvl0", "lvlhalf", "lvl1", "lvl2", "lvl3">>
Vals(lv) == Lv(lv).key

(* a count c out of n of an event of probability 1/q is within six standard  *)
(* deviations of its mean                                                    *)
Plausible(c, n, q) == AbsI((c * q) - n) <= (6 * (ISqrt(n * (q - 1)) + 1)) + q

Key ==
  /\ Is("key")
  /\ \E lv \in {Ev.lvl}, v \in {Ev.vals} : \E q \in {Cardinality(Vals(lv))} :
       /\ Chk(<<"dimension", lv>>, Len(v) = Lv(lv).n)
       /\ \E out \in {{i \in 1..Len(v) : v[i] \notin Vals(lv)}} :
            Chk(<<"value outside the set of", lv, {<<i - 1, v[i]>> : i \in out}>>, out = {})
       /\ \E c \in {FoldLeft(LAMBDA f, x : [f EXCEPT ![x + 2] = @ + 1], <<0, 0, 0>>, v)} :
            /\ \A x \in Vals(lv) : Chk(<<"frequency of", x, "in", lv, "is", c[x + 2]>>, Plausible(c[x + 2], Len(v), q))
            /\ total' = With(total, lv, IF lv \in DOMAIN total THEN [i \in 1..3 |-> total[lv][i] + c[i]] ELSE c)
       /\ seen' = With(seen, lv, IF lv \in DOMAIN seen THEN [i \in 1..Len(v) |-> seen[lv][i] \cup {v[i]}] ELSE [i \in 1..Len(v) |-> {v[i]}])
       /\ keys' = With(keys, <<Ev.id, lv>>, v)
  /\ UNCHANGED <<objs, known>>

(* independence of two sequences of coefficients: every pair of values       *)
(* occurs as often as independent uniform draws make it                      *)
Independent(what, a, b, VA, VB) ==
  \E n \in {Len(a)} :
  \E c \in {FoldLeft(LAMBDA f, i : [f EXCEPT ![((a[i] + 1) * 3) + b[i] + 2] = @ + 1], [i \in 1..9 |-> 0], [i \in 1..n |-> i])} :
    \A x \in VA, y \in VB :
      Chk(<<what, "values", x, y, "occur together", c[((x + 1) * 3) + y + 2], "times of", n>>,
          Plausible(c[((x + 1) * 3) + y + 2], n, Cardinality(VA) * Cardinality(VB)))
Min2(a, b) == IF a < b THEN a ELSE b
Pair ==
  /\ Is("pair")
  /\ \E a \in {keys[<<Ev.a, Ev.la>>]}, b \in {keys[<<Ev.b, Ev.lb>>]}, s \in {Ev.shift} :
     \E n \in {Min2(Len(a), Len(b) - s)} :
       /\ Chk(<<"enough coefficients">>, n >= 300)
       /\ Independent(<<"keys", Ev.a, Ev.b, "levels", Ev.la, Ev.lb, "shift", s>>,
                      SubSeq(a, 1, n), SubSeq(b, s + 1, s + n), Vals(Ev.la), Vals(Ev.lb))
  /\ UNCHANGED <<keys, total, seen, objs, known>>
(* one value does not determine its neighbours: every combination of three   *)
(* neighbouring coefficients occurs as often as it should                    *)
Triple ==
  /\ Is("triple")
  /\ \E v \in {keys[<<Ev.a, Ev.la>>]}, A \in {Vals(Ev.la)} :
     \E n \in {Len(v) - 2} :
     \E c \in {FoldLeft(LAMBDA f, i : [f EXCEPT ![((v[i] + 1) * 9) + ((v[i + 1] + 1) * 3) + v[i + 2] + 2] = @ + 1], [i \in 1..27 |-> 0], [i \in 1..n |-> i])} :
       \A x \in A, y \in A, z \in A :
         Chk(<<"key", Ev.a, "level", Ev.la, "combination", <<x, y, z>>, "occurs", c[((x + 1) * 9) + ((y + 1) * 3) + z + 2], "times of", n>>,
             Plausible(c[((x + 1) * 9) + ((y + 1) * 3) + z + 2], n, Cardinality(A) * Cardinality(A) * Cardinality(A)))
  /\ UNCHANGED <<keys, total, seen, objs, known>>
End ==
  /\ Is("end")
  /\ \A i \in 1..5 : Chk("all levels", Names[i] \in DOMAIN total)
  /\ \A lv \in DOMAIN total :
       /\ \E n \in {total[lv][1] + total[lv][2] + total[lv][3]} :
            \A x \in Vals(lv) : Chk(<<"frequency of", x, "in all keys of", lv, "is", total[lv][x + 2], "of", n>>, Plausible(total[lv][x + 2], n, Cardinality(Vals(lv))))
       /\ \E bad \in {{i \in DOMAIN seen[lv] : seen[lv][i] # Vals(lv)}} :
            Chk(<<"positions of", lv, "that never take some value", bad>>, bad = {})
  /\ UNCHANGED <<keys, total, seen, objs, known>>

(* ---- histories: what every object holds after every step ----------------- *)
Observed(want) == \A o \in DOMAIN want :
  /\ Chk(<<"object", o, "changed or not as expected">>, Ev.snap[o + 1] = want[o])
  /\ Chk(<<"lookup by level of", o>>, Ev.got[o + 1] = Ev.snap[o + 1])
Elems(s) == {s[i] : i \in 1..Len(s)}
Start == /\ Is("start") /\ objs' = [o \in 0..(Len(Ev.snap) - 1) |-> Ev.snap[o + 1]]
         /\ \E all \in {UNION {Elems(s) : s \in Elems(Ev.snap)}} :
              /\ Chk("generated twice", all \cap known = {} /\ Cardinality(all) = Len(Ev.snap) * 5)
              /\ known' = known \cup all
         /\ UNCHANGED <<keys, total, seen>>
New == /\ Is("new")
       /\ \E d \in {Ev.snap[Ev.obj + 1]} :
            /\ Chk(<<"a key or level generated before, or two levels alike">>, Elems(d) \cap known = {} /\ Cardinality(Elems(d)) = 5)
            /\ known' = known \cup Elems(d)
            /\ \E want \in {With(objs, Ev.obj, d)} : Observed(want) /\ objs' = want
       /\ UNCHANGED <<keys, total, seen>>
Copy == /\ Is("copy")
        /\ \E want \in {With(objs, Ev.obj, objs[Ev.other])} : Observed(want) /\ objs' = want
        /\ UNCHANGED <<keys, total, seen, known>>
Proc == /\ Is("proc")   \* the keys of another process
        /\ Chk(<<"a key another process has">>, Elems(Ev.digs) \cap known = {} /\ Cardinality(Elems(Ev.digs)) = Len(Ev.digs))
        /\ known' = known \cup Elems(Ev.digs)
        /\ UNCHANGED <<keys, total, seen, objs>>

(* All stretches of coefficients of keys generated at the same time, in order: *)
(* none occurs twice.                                                       *)
Below(a, b) == \E d \in {SelectInSeq([i \in 1..Len(a) |-> a[i] # b[i]], LAMBDA x : x)} : d > 0 /\ a[d] < b[d]
Stretches ==
  /\ Is("stretches")
  /\ (\A i \in 1..Len(Ev.ws) : \E p \in {IF i = 1 THEN last[1] ELSE Ev.ws[i - 1]} :
         IF p = <<>> \/ Below(p, Ev.ws[i]) THEN TRUE
         ELSE Chk(<<"the same stretch of coefficients", IF i = 1 THEN "-" ELSE Ev.at[i - 1], Ev.at[i]>>, FALSE)) = TRUE
  /\ last' = <<Ev.ws[Len(Ev.ws)], last[2] + Len(Ev.ws)>>
  /\ UNCHANGED <<keys, total, seen, objs, known>>
Stop == /\ Is("stop") /\ Chk("all stretches", last[2] = 16 * ((((636 + 760) - 142) + 1024 + 2048 + 8192) - 141))
        /\ UNCHANGED <<last, keys, total, seen, objs, known>>
Init == TraceInit /\ last = <<<<>>, 0>> /\ keys = None /\ total = None /\ seen = None /\ objs = None /\ known = {}
Next == Stretches \/ Stop \/ ((Key \/ Pair \/ Triple \/ End \/ Start \/ New \/ Copy \/ Proc) /\ UNCHANGED last)
Spec == Init /\ [][Next]_vars
=============================================================================
