-------------------------------- MODULE Ring --------------------------------
(***************************************************************************)
(* The negacyclic ring T[X]/(X^N + 1).  A polynomial is a sequence of N    *)
(* coefficients, constant first.  The coefficient group enters through the *)
(* operator parameter neg (and add, scale), so the same definitions serve  *)
(* the model (integers modulo Q) and the traces (machine words).           *)
(***************************************************************************)
EXTENDS Integers, Sequences

(* X^a * p, any a >= 0 *)
MulXai(p, a, neg(_)) ==
  LET n == Len(p)
  IN  [j \in 1..n |-> LET s == (j - 1 - a) % (2 * n)
                      IN  IF s < n THEN p[s + 1] ELSE neg(p[s - n + 1])]

(* coefficient j (0-based) of X^a * p *)
XaiAt(p, a, j, neg(_)) ==
  LET n == Len(p)
      s == (j - a) % (2 * n)
  IN  IF s < n THEN p[s + 1] ELSE neg(p[s - n + 1])

(* r is p(X^d), d odd: coefficient i of p sits at i*d, sign by wrap-around  *)
IsAuto(r, p, d, neg(_)) ==
  LET n == Len(p)
  IN  /\ Len(r) = n
      /\ \A i \in 0..(n - 1) :
           LET t == (i * (d % (2 * n))) % (2 * n)
           IN  IF t < n THEN r[t + 1] = p[i + 1] ELSE r[t - n + 1] = neg(p[i + 1])

(* the mask of the sample extracted at position j from the mask polynomial a *)
ExtractMask(a, j, neg(_)) ==
  LET n == Len(a)
  IN  [i \in 1..n |-> IF i - 1 <= j THEN a[j - (i - 1) + 1] ELSE neg(a[n + j - (i - 1) + 1])]
=============================================================================
