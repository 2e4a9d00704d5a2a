---------------------------- MODULE StreamsTrace ----------------------------
(* C17.  Masks and noise of encryptions of the real library.  A mask word    *)
(* is represented by its 16 most significant bits, which is what the words   *)
(* of all widths drawn from one random word have in common; five             *)
(* neighbouring ones are a window.  No window may occur twice in a process,  *)
(* at whatever offset and level; nor twelve neighbouring noise values.        *)
EXTENDS TraceBase, Levels, FiniteSets, SequencesExt
VARIABLES due,   \* kind of window -> number of windows in the rows so far
          count, \* and in the ordered list
          i0     \* last window of the previous chunk
vars == <<l, due, count, i0>>
With(f, k, v) == [n \in DOMAIN f \cup {k} |-> IF n = k THEN v ELSE f[n]]
Num(ss, k) == FoldLeft(LAMBDA a, s : IF Len(s) < k THEN a ELSE (a + Len(s) + 1) - k, 0, ss)
Plausible(c, n, q) == AbsI((c * q) - n) <= (6 * (ISqrt(n * (q - 1)) + 1)) + q

(* every 16-bit limb of every word, bit by bit (of 64-bit words that were in  *)
(* the transform domain the upper half)                                      *)
Bits == /\ Is("bits")
        /\ \A a \in Ev.from..Limbs(Ev.lvl) : \A b \in {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15} :
             \E c \in {Count(Ev.ws, LAMBDA x : (x[a] \div (2 ^ b)) % 2 = 1)} :
               Chk(<<Ev.kind, Ev.lvl, "mask bit", (16 * (a - 1)) + b, "is one in", c, "of", Len(Ev.ws)>>, Plausible(c, Len(Ev.ws), 2))
        /\ UNCHANGED <<due, count, i0>>
(* neighbours within a row are unrelated: differences and sums spread, and   *)
(* the top bits of neighbours are independent                                *)
Spread(s, what) ==
  \E n \in {Len(s)} :
    /\ Chk(<<what, "values repeat">>, n - Cardinality({s[i] : i \in 1..n}) <= 45)
    /\ Chk(<<what, "differences repeat">>, n - Cardinality({(s[i + 1] - s[i]) % 65536 : i \in 1..(n - 1)}) <= 45)
    /\ Chk(<<what, "sums repeat">>, n - Cardinality({(s[i + 1] + s[i]) % 65536 : i \in 1..(n - 1)}) <= 45)
    /\ \A lag \in {1, 2, 3, 4, 8, 16, 32, 64} :
         \E c \in {Count([i \in 1..(n - lag) |-> i], LAMBDA i : (s[i] >= 32768) = (s[i + lag] >= 32768))} :
           Chk(<<what, "top bits agree at lag", lag, "in", c>>, Plausible(c, n - lag, 2))
Rows == /\ Is("rows")
        /\ (\A i \in 1..Len(Ev.ms) :
              /\ Chk(<<"mask length", Ev.kind, Ev.lvl, i>>, Len(Ev.ms[i]) >= 5)
              /\ IF Len(Ev.ms[i]) < 600 THEN TRUE
                 ELSE Spread(SubSeq(Ev.ms[i], 1, IF Len(Ev.ms[i]) > 1024 THEN 1024 ELSE Len(Ev.ms[i])), <<Ev.kind, Ev.lvl, "row", i>>)) = TRUE
        /\ due' = [due EXCEPT !["mask"] = @ + Num(Ev.ms, 5)] /\ UNCHANGED <<count, i0>>
(* neighbouring noise values are unrelated: where both are not zero, their    *)
(* signs agree half of the time, and equal magnitudes are as rare as chance   *)
Apart(d, what) ==
  \A lag \in {1, 2, 3, 4, 5, 6, 7, 8, 14, 15, 28, 42} :
    LET at == SelectSeq([i \in 1..(Len(d) - lag) |-> i], LAMBDA i : d[i] # 0 /\ d[i + lag] # 0)
        same == Count(at, LAMBDA i : (d[i] > 0) = (d[i + lag] > 0))
    IN  Chk(<<what, "noise signs agree at lag", lag, "in", same, "of", Len(at)>>, Plausible(same, Len(at), 2))
Noise == /\ Is("noise")
         /\ \E lv \in {Lv(Ev.lvl)} : \E d \in {FlattenSeq(Ev.ds)} :
              /\ (\A i \in 1..Len(d) : Chk(<<Ev.kind, Ev.lvl, "noise value", i, d[i]>>, AbsI(d[i]) <= lv.max)) = TRUE
              /\ Chk(<<Ev.kind, Ev.lvl, "noise sign">>, NoiseCentred(d))
              /\ IF Len(d) < 300 THEN TRUE ELSE Apart(d, <<Ev.kind, Ev.lvl>>)
              /\ IF Len(d) < 300 THEN TRUE ELSE Chk(<<Ev.kind, Ev.lvl, "noise distribution", [i \in 1..3 |-> Count(d, LAMBDA x : AbsI(x) <= lv.thr[i][1])], "of", Len(d)>>, NoiseShape(d, lv.thr))
         /\ due' = [due EXCEPT !["noise"] = @ + Num(Ev.ds, 12)] /\ UNCHANGED <<count, i0>>

(* All windows of the run, in lexicographic order and cut into chunks: they   *)
(* are all different if every one is below the next.                        *)
Below(a, b) == \E d \in {SelectInSeq([i \in 1..Len(a) |-> a[i] # b[i]], LAMBDA x : x)} : d > 0 /\ a[d] < b[d]
Windows ==
  /\ Is("windows")
  /\ (\A i \in 1..Len(Ev.ws) : Chk(<<Ev.what, "window in order", Ev.chunk, i>>, Len(Ev.ws[i]) = Ev.k /\ (i = 1 \/ Below(Ev.ws[i - 1], Ev.ws[i])
         \/ (PrintT(<<"REJECT", Ev.what, "window occurs again", Ev.ws[i], "at", Ev.at[i - 1], "and", Ev.at[i]>>) /\ FALSE)))) = TRUE
  /\ (i0 = <<>> \/ Ev.chunk = 0 \/ Below(i0, Ev.ws[1])) = TRUE
  /\ count' = With(count, Ev.what, (IF Ev.what \in DOMAIN count THEN count[Ev.what] ELSE 0) + Len(Ev.ws))
  /\ i0' = Ev.ws[Len(Ev.ws)]
  /\ UNCHANGED due
End == /\ Is("end")
       /\ \A w \in DOMAIN due : Chk(<<"all", w, "windows">>, w \in DOMAIN count /\ count[w] = due[w])
       /\ UNCHANGED <<due, count, i0>>
Init == TraceInit /\ due = [mask |-> 0, noise |-> 0] /\ count = [c \in {} |-> 0] /\ i0 = <<>>
Next == Bits \/ Rows \/ Noise \/ Windows \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
