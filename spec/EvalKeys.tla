------------------------------ MODULE EvalKeys ------------------------------
(***************************************************************************)
(* Model of evaluation keys as the library builds them: an object is a      *)
(* record of references, one per slot, into a heap of keys; a key knows     *)
(* what it is (kind, level pair, secret it was generated from, and for a    *)
(* transform the key it is the transform of).  Inserting allocates; copying *)
(* an object copies references.  A pure map (want) remembers what each slot  *)
(* of each object was last given.                                          *)
(***************************************************************************)
EXTENDS Integers, FiniteSets

CONSTANTS Objs, Pairs, Secrets, MaxOps
Kinds == {"bk", "fft", "ntt", "iksk"}
Slots == [kind : Kinds, pair : Pairs]
Nil == 0

VARIABLES ref, heap, want, next
vars == <<ref, heap, want, next>>
NoKey == [kind |-> "none"]

Init == /\ ref = [o \in Objs |-> [s \in Slots |-> Nil]]
        /\ heap = <<>>
        /\ want = [o \in Objs |-> [s \in Slots |-> NoKey]]
        /\ next = 1
Alloc(o, s, key) == /\ heap' = [i \in 1..next |-> IF i = next THEN key ELSE heap[i]]
                    /\ ref' = [ref EXCEPT ![o][s] = next]
                    /\ want' = [want EXCEPT ![o][s] = key]
                    /\ next' = next + 1
Insert == \E o \in Objs, s \in Slots, k \in Secrets :
            Alloc(o, s, [kind |-> s.kind, pair |-> s.pair, secret |-> k, id |-> next])
Convert == \E o \in Objs, p \in Pairs, k \in {"fft", "ntt"} :
            LET b == [kind |-> "bk", pair |-> p]
            IN  /\ ref[o][b] # Nil
                /\ Alloc(o, [kind |-> k, pair |-> p],
                         [kind |-> k, pair |-> p, secret |-> heap[ref[o][b]].secret, id |-> heap[ref[o][b]].id])
Copy == \E o, p \in Objs : /\ ref' = [ref EXCEPT ![o] = ref[p]]
                           /\ want' = [want EXCEPT ![o] = want[p]]
                           /\ UNCHANGED <<heap, next>>
Next == next <= MaxOps /\ (Insert \/ Convert \/ Copy)
Spec == Init /\ [][Next]_vars

Get(o, s) == IF ref[o][s] = Nil THEN NoKey ELSE heap[ref[o][s]]
HandsOut == \A o \in Objs, s \in Slots : Get(o, s) = want[o][s]
Typed == \A o \in Objs, s \in Slots : ref[o][s] # Nil => Get(o, s).kind = s.kind /\ Get(o, s).pair = s.pair
(* a converted key agrees with the bootstrapping key it came from            *)
Fresh == \A i, j \in 1..(next - 1) : (i # j /\ heap[i].id = heap[j].id) =>
            heap[i].pair = heap[j].pair /\ heap[i].secret = heap[j].secret
(* no operation changes a key that is already in the heap                   *)
Immutable == [][\A i \in 1..(next - 1) : heap'[i] = heap[i]]_vars
OneSlot == [][Cardinality({x \in Objs \X Slots : ref[x[1]][x[2]] # ref'[x[1]][x[2]]}) <= 1 \/ heap = heap']_vars
=============================================================================
