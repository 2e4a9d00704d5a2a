------------------------------- MODULE KeyGen -------------------------------
(***************************************************************************)
(* C16.  Secret key objects made by threads.  Every thread owns a stream   *)
(* of random words, opened from process-wide entropy at its first use; a   *)
(* thread slot can end and be taken by a new thread.  Generating a key     *)
(* draws, coefficient by coefficient and level by level, from the stream   *)
(* of the generating thread, interleaved with other threads.  Words are    *)
(* modelled by where they come from: <<entropy, position>>; the value of   *)
(* a coefficient is the word's residue in the value set of its level,      *)
(* chosen nondeterministically at the draw.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Threads, Objs, Levels, MaxOps
VARIABLES stream,  \* thread -> [seed, pos] or seed = 0: not opened yet
          entropy, \* next unused seed
          obj,     \* object -> [level -> sequence of [word, val]]
          busy,    \* thread -> object being generated, or "-"
          ops
vars == <<stream, entropy, obj, busy, ops>>
Size(lv) == IF lv = "bin" THEN 1 ELSE 2
Range(lv) == IF lv = "bin" THEN {0, 1} ELSE {-1, 0, 1}
Empty == [lv \in Levels |-> <<>>]
Whole(o) == \A lv \in Levels : Len(obj[o][lv]) = Size(lv)
Init == /\ stream = [t \in Threads |-> [seed |-> 0, pos |-> 0]] /\ entropy = 1
        /\ obj = [o \in Objs |-> Empty] /\ busy = [t \in Threads |-> "-"] /\ ops = 0
Idle(o) == \A t \in Threads : busy[t] # o
Start(t, o) ==
  /\ ops < MaxOps /\ busy[t] = "-" /\ Idle(o) /\ ops' = ops + 1
  /\ busy' = [busy EXCEPT ![t] = o] /\ obj' = [obj EXCEPT ![o] = Empty]
  /\ IF stream[t].seed = 0
     THEN stream' = [stream EXCEPT ![t] = [seed |-> entropy, pos |-> 0]] /\ entropy' = entropy + 1
     ELSE UNCHANGED <<stream, entropy>>
Draw(t) ==
  /\ busy[t] # "-"
  /\ \E lv \in Levels :
       /\ Len(obj[busy[t]][lv]) < Size(lv)
       /\ lv = "bin" \/ "bin" \notin Levels \/ Len(obj[busy[t]]["bin"]) = Size("bin")
       /\ \E v \in Range(lv) :
            obj' = [obj EXCEPT ![busy[t]][lv] = Append(@, [word |-> <<stream[t].seed, stream[t].pos>>, val |-> v])]
  /\ stream' = [stream EXCEPT ![t].pos = @ + 1]
  /\ UNCHANGED <<entropy, busy, ops>>
Finish(t) == /\ busy[t] # "-" /\ Whole(busy[t]) /\ busy' = [busy EXCEPT ![t] = "-"] /\ UNCHANGED <<stream, entropy, obj, ops>>
End(t) == /\ busy[t] = "-" /\ stream[t].seed # 0 /\ ops < MaxOps /\ ops' = ops + 1
          /\ stream' = [stream EXCEPT ![t] = [seed |-> 0, pos |-> 0]] /\ UNCHANGED <<entropy, obj, busy>>
Copy(o, p) == /\ ops < MaxOps /\ ops' = ops + 1 /\ o # p /\ Idle(o) /\ Idle(p) /\ Whole(p)
              /\ obj' = [obj EXCEPT ![o] = obj[p]] /\ UNCHANGED <<stream, entropy, busy>>
Next == \E t \in Threads : Draw(t) \/ Finish(t) \/ End(t) \/ (\E o \in Objs : Start(t, o))
        \/ \E o, p \in Objs : Copy(o, p)
Spec == Init /\ [][Next]_vars

Words(o, lv) == {obj[o][lv][i].word : i \in 1..Len(obj[o][lv])}
InRange == \A o \in Objs, lv \in Levels : \A i \in 1..Len(obj[o][lv]) : obj[o][lv][i].val \in Range(lv)
(* coefficients of one key never share a word, whatever their levels         *)
Apart == \A o \in Objs : \A lv, lw \in Levels :
           /\ lv # lw => Words(o, lv) \cap Words(o, lw) = {}
           /\ Cardinality(Words(o, lv)) = Len(obj[o][lv])
(* two keys share no word at all, or are copies of each other                *)
All(o) == UNION {Words(o, lv) : lv \in Levels}
Unrelated == \A o, p \in Objs : o # p => (All(o) \cap All(p) = {} \/ obj[o] = obj[p])
=============================================================================
