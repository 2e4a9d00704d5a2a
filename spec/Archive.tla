------------------------------- MODULE Archive -------------------------------
(***************************************************************************)
(* Model of objects made of optional components (evaluation keys, packets) *)
(* that move through archives.  An archive is the flat list a serializer    *)
(* writes: for every component in a fixed order, a presence flag and the    *)
(* content.  Loading parses the list in the same order into an object,      *)
(* whatever it held.  A ghost copy remembers what each archive was made of. *)
(* The shadow variable runs the same history without any archive: a client  *)
(* and a server that communicate through archives compute what one process  *)
(* computes.  An archive may be torn (the writer stopped early): loading it *)
(* is refused, and what the object then holds is unspecified until it is    *)
(* given a whole value again; nothing is ever wrong silently.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Objs, Arcs, Comps, Tags, MaxOps, Written
(* Written: the order in which components are written, and read             *)
Absent == "absent"
Vals == Tags \cup {Absent}

VARIABLES obj, arc, shadow, shadowarc, ops, evals, torn, broken
vars == <<obj, arc, shadow, shadowarc, ops, evals, torn, broken>>
Empty == [c \in Comps |-> Absent]

Serialize(o) == [i \in 1..Len(Written) |-> <<o[Written[i]] # Absent, o[Written[i]]>>]
Parse(list, old) ==   \* components not in the list keep what they held
  [c \in Comps |-> IF \E i \in 1..Len(list) : Written[i] = c
                   THEN LET i == CHOOSE k \in 1..Len(Written) : Written[k] = c
                        IN  IF list[i][1] THEN list[i][2] ELSE Absent
                   ELSE old[c]]
Eval(o) == o   \* a result depends on everything the object holds

Init == /\ obj = [o \in Objs |-> Empty] /\ arc = [a \in Arcs |-> <<>>]
        /\ shadow = obj /\ shadowarc = [a \in Arcs |-> Empty]
        /\ ops = 0 /\ evals = TRUE /\ torn = {} /\ broken = {}
Put == \E o \in Objs, c \in Comps, t \in Vals :
         /\ obj' = [obj EXCEPT ![o][c] = t] /\ shadow' = [shadow EXCEPT ![o][c] = t]
         /\ UNCHANGED <<arc, shadowarc, evals, torn, broken>>
Copy == \E o, p \in Objs : obj' = [obj EXCEPT ![o] = obj[p]] /\ shadow' = [shadow EXCEPT ![o] = shadow[p]]
                           /\ broken' = (IF p \in broken THEN broken \cup {o} ELSE broken \ {o})
                           /\ UNCHANGED <<arc, shadowarc, evals, torn>>
Save == \E o \in Objs \ broken, a \in Arcs :
          /\ arc' = [arc EXCEPT ![a] = Serialize(obj[o])]
          /\ shadowarc' = [shadowarc EXCEPT ![a] = shadow[o]]
          /\ torn' = torn \ {a}
          /\ UNCHANGED <<obj, shadow, evals, broken>>
Tear == \E a \in Arcs : \E n \in 0..(Len(arc[a]) - 1) :
          /\ arc' = [arc EXCEPT ![a] = SubSeq(arc[a], 1, n)]
          /\ torn' = torn \cup {a}
          /\ UNCHANGED <<obj, shadow, shadowarc, evals, broken>>
Refused(a) == Len(arc[a]) < Len(Written)     \* the reader runs out of items
Load == \E o \in Objs, a \in Arcs :
          /\ arc[a] # <<>> \/ a \in torn
          /\ obj' = [obj EXCEPT ![o] = Parse(arc[a], obj[o])]
          /\ broken' = (IF Refused(a) THEN broken \cup {o} ELSE broken \ {o})
          /\ shadow' = (IF Refused(a) THEN shadow ELSE [shadow EXCEPT ![o] = shadowarc[a]])
          /\ UNCHANGED <<arc, shadowarc, evals, torn>>
Operate == \E o \in Objs \ broken : evals' = (Eval(obj[o]) = Eval(shadow[o])) /\ UNCHANGED <<obj, arc, shadow, shadowarc, torn, broken>>
Next == ops < MaxOps /\ ops' = ops + 1 /\ (Put \/ Copy \/ Save \/ Tear \/ Load \/ Operate)
Spec == Init /\ [][Next]_vars

Lossless == \A o \in Objs \ broken : obj[o] = shadow[o]
TornIsRefused == \A a \in torn : Refused(a)
SameResults == evals
Deterministic == \A a \in Arcs, o \in Objs :
   (a \notin torn /\ arc[a] # <<>> /\ obj[o] = shadowarc[a]) => Serialize(obj[o]) = arc[a]
Order2 == <<"c2", "c1">>
Order == <<"c1", "c2", "c3">>
=============================================================================
