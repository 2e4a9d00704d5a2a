------------------------------- MODULE Streams -------------------------------
(***************************************************************************)
(* C17.  Threads that encrypt.  Each thread has one random stream per      *)
(* translation unit, opened from process-wide entropy (an atomic counter)  *)
(* at its first use there; a thread slot may end and be taken by a new     *)
(* thread.  An encryption runs in one unit and draws mask and noise words  *)
(* one at a time, interleaved with every other thread.  A parallel loop is *)
(* an encryption task handed to an idle thread.  A word is named by where  *)
(* it comes from: <<entropy, position>>.                                   *)
(*                                                                         *)
(* SHARED = TRUE is the design the library must not have: one stream per   *)
(* unit for all threads, read and advanced in two steps.  TLC shows that   *)
(* Unique fails there (StreamsBadMC.cfg, run by hand), which is why the    *)
(* recorded bursts of concurrent encryptions must never repeat a window.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Threads, Units, Masks, MaxEnc, SHARED
VARIABLES stream, entropy, job, out, made
vars == <<stream, entropy, job, out, made>>
(* stream: <<thread, unit>> -> [seed, pos];  job: thread -> current encryption *)
Closed == [seed |-> 0, pos |-> 0]
None == [unit |-> "-", mask |-> <<>>, noise |-> <<>>, held |-> 0]
Key(t, u) == IF SHARED THEN <<"all", u>> ELSE <<t, u>>
Keys == IF SHARED THEN {<<"all", u>> : u \in Units} ELSE Threads \X Units
Init == /\ stream = [k \in Keys |-> Closed] /\ entropy = 1
        /\ job = [t \in Threads |-> None] /\ out = {} /\ made = 0
Begin(t, u) ==
  /\ made < MaxEnc /\ job[t] = None
  /\ made' = made + 1
  /\ job' = [job EXCEPT ![t] = [None EXCEPT !.unit = u]]
  /\ IF stream[Key(t, u)].seed = 0
     THEN stream' = [stream EXCEPT ![Key(t, u)] = [seed |-> entropy, pos |-> 1]] /\ entropy' = entropy + 1
     ELSE UNCHANGED <<stream, entropy>>
  /\ UNCHANGED out
(* a draw reads the position and then advances it                            *)
Read(t) == /\ job[t].unit # "-" /\ job[t].held = 0 /\ Len(job[t].noise) = 0
           /\ job' = [job EXCEPT ![t].held = stream[Key(t, job[t].unit)].pos]
           /\ UNCHANGED <<stream, entropy, out, made>>
Advance(t) ==
  /\ job[t].held # 0
  /\ \E k \in {Key(t, job[t].unit)} : \E w \in {<<stream[k].seed, job[t].held>>} :
       /\ stream' = [stream EXCEPT ![k].pos = job[t].held + 1]
       /\ job' = [job EXCEPT ![t] = IF Len(@.mask) < Masks THEN [@ EXCEPT !.held = 0, !.mask = Append(@, w)]
                                    ELSE [@ EXCEPT !.held = 0, !.noise = Append(@, w)]]
  /\ UNCHANGED <<entropy, out, made>>
Emit(t) == /\ Len(job[t].noise) = 1
           /\ out' = out \cup {[by |-> made, mask |-> job[t].mask, noise |-> job[t].noise, n |-> Cardinality(out)]}
           /\ job' = [job EXCEPT ![t] = None] /\ UNCHANGED <<stream, entropy, made>>
Quit(t) == /\ ~SHARED /\ job[t] = None /\ \E u \in Units : stream[<<t, u>>].seed # 0
           /\ made < MaxEnc
           /\ stream' = [k \in Keys |-> IF k[1] = t THEN Closed ELSE stream[k]]
           /\ UNCHANGED <<entropy, job, out, made>>
Next == \E t \in Threads : (\E u \in Units : Begin(t, u)) \/ Read(t) \/ Advance(t) \/ Emit(t) \/ Quit(t)
Spec == Init /\ [][Next]_vars
Words(e) == {e.mask[i] : i \in 1..Len(e.mask)} \cup {e.noise[i] : i \in 1..Len(e.noise)}
(* no word serves two encryptions, nor twice in one                          *)
Unique == /\ \A e \in out : Cardinality(Words(e)) = Masks + 1
          /\ \A e, f \in out : e = f \/ Words(e) \cap Words(f) = {}
Complete == \A e \in out : Len(e.mask) = Masks /\ Len(e.noise) = 1
=============================================================================
