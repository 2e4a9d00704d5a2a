-------------------------------- MODULE Conc --------------------------------
(***************************************************************************)
(* C20.  Threads that evaluate operations with one shared evaluation key.  *)
(* An operation goes through the steps the library's operations have:      *)
(*   prepare  the thread's transform tables exist (built on first use, in  *)
(*            two steps: announced, then filled);                          *)
(*   load     the decomposition of the first operand goes to scratch       *)
(*            space, one word at a time;                                   *)
(*   combine  scratch, the second operand, the key and the tables give the *)
(*            result, in the thread's own accumulator;                     *)
(*   store    the result is written to a register of the thread.           *)
(* Registers of a thread are its own; one more register is shared and read *)
(* only.  Values are terms, so a result that depends on anything but its   *)
(* operation, operands, key and tables is a different term.                *)
(* Alone is the ghost: what the same operations give when each is a single *)
(* step.                                                                   *)
(*                                                                         *)
(* FLAW names the design: "none" is the library's (scratch and tables per  *)
(* thread, key constant).  The others are designs a change could slip      *)
(* into, and TLC finds the violation of each (ConcBadMC.cfg with the FLAW  *)
(* of choice): "scratch" shared scratch space; "lazy" shared tables built  *)
(* by the first thread that needs them, without a lock; "dirty" scratch    *)
(* that is accumulated into and cleared only when built; "cache" the       *)
(* decomposition remembered by the address of the operand; "key" the key   *)
(* normalised in place while it is used; "operand" the operand rescaled in *)
(* place; "firstkey" the key set of the first operation remembered and     *)
(* used ever after.                                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS Threads, Regs, Ops, Words, MaxOps, KeySets, FLAW
VARIABLES reg, alone, job, scratch, table, key, shared, cache, count, known
vars == <<reg, alone, job, scratch, table, key, shared, cache, count, known>>

Leaf(t, r) == <<"in", t, r>>
Idle == [op |-> "-", d |-> "-", a |-> "-", b |-> "-", k |-> "-", pc |-> "idle", at |-> 0, acc |-> <<>>]
Sh == "shared"   \* the name of the shared register
Sl(t) == IF FLAW = "scratch" THEN "all" ELSE t         \* scratch of t
Tb(t) == IF FLAW = "lazy" THEN "all" ELSE t            \* tables of t
Val(t, r) == IF r = Sh THEN shared ELSE reg[t][r]
AVal(t, r) == IF r = Sh THEN Leaf(Sh, Sh) ELSE alone[t][r]
Result(op, x, y, k) == <<op, x, y, k, "tables">>       \* what one step gives
Word(v, i) == <<"word", v, i>>
Clean == [i \in 1..Words |-> <<>>]
Slots(f) == IF f THEN {"all"} ELSE Threads

Init ==
  /\ reg = [t \in Threads |-> [r \in Regs |-> Leaf(t, r)]]
  /\ alone = reg
  /\ job = [t \in Threads |-> Idle]
  /\ scratch = [s \in Slots(FLAW = "scratch") |-> Clean]
  /\ table = [s \in Slots(FLAW = "lazy") |-> [ready |-> FALSE, val |-> "-"]]
  /\ key = [k \in KeySets |-> k]
  /\ known = "-"
  /\ shared = Leaf(Sh, Sh)
  /\ cache = [t \in Threads |-> "-"]
  /\ count = [t \in Threads |-> 0]

Begin(t, op, d, a, b, k) ==
  /\ job[t].pc = "idle" /\ count[t] < MaxOps
  /\ count' = [count EXCEPT ![t] = @ + 1]
  /\ job' = [job EXCEPT ![t] = [Idle EXCEPT !.op = op, !.d = d, !.a = a, !.b = b, !.k = k, !.pc = "prepare"]]
  /\ alone' = [alone EXCEPT ![t][d] = Result(op, AVal(t, a), AVal(t, b), k)]
  /\ UNCHANGED <<reg, scratch, table, key, shared, cache, known>>
(* tables: announced first, filled afterwards                               *)
Prepare(t) ==
  /\ job[t].pc = "prepare"
  /\ IF table[Tb(t)].ready
     THEN /\ job' = [job EXCEPT ![t].pc = "load"] /\ UNCHANGED table
     ELSE /\ table' = [table EXCEPT ![Tb(t)].ready = TRUE] /\ job' = [job EXCEPT ![t].pc = "fill"]
  /\ UNCHANGED <<reg, alone, scratch, key, shared, cache, count, known>>
Fill(t) ==
  /\ job[t].pc = "fill"
  /\ table' = [table EXCEPT ![Tb(t)].val = "tables"]
  /\ job' = [job EXCEPT ![t].pc = "load"]
  /\ UNCHANGED <<reg, alone, scratch, key, shared, cache, count, known>>
Load(t) ==
  /\ job[t].pc = "load"
  /\ LET i == job[t].at + 1
         kept == FLAW = "cache" /\ cache[t] = job[t].a
         old == scratch[Sl(t)][i]
         new == IF FLAW = "dirty" /\ old # <<>> THEN <<"sum", old, Word(Val(t, job[t].a), i)>> ELSE Word(Val(t, job[t].a), i)
     IN  /\ scratch' = IF kept THEN scratch ELSE [scratch EXCEPT ![Sl(t)][i] = new]
         /\ cache' = [cache EXCEPT ![t] = IF i = Words THEN job[t].a ELSE @]
         /\ job' = [job EXCEPT ![t].at = i, ![t].pc = IF i = Words THEN "combine" ELSE "load"]
  /\ UNCHANGED <<reg, alone, table, key, shared, count, known>>
(* the words stand for the operand only if they are all its words            *)
Whole(s) == IF \E v \in {s[1][2]} : s = [i \in 1..Words |-> Word(v, i)] THEN s[1][2] ELSE <<"mixed", s>>
Handed(t) == IF FLAW = "firstkey" /\ known # "-" THEN known ELSE job[t].k
Combine(t) ==
  /\ job[t].pc = "combine"
  /\ \E x \in {Whole(scratch[Sl(t)])} :
       job' = [job EXCEPT ![t].acc = <<job[t].op, x, Val(t, job[t].b), key[Handed(t)], table[Tb(t)].val>>, ![t].pc = "store"]
  /\ known' = IF FLAW = "firstkey" /\ known = "-" THEN job[t].k ELSE known
  /\ key' = IF FLAW = "key" THEN [key EXCEPT ![job[t].k] = "normalised"] ELSE key
  /\ IF FLAW = "operand"
     THEN IF job[t].a = Sh THEN shared' = <<"scaled", shared>> /\ UNCHANGED reg
          ELSE reg' = [reg EXCEPT ![t][job[t].a] = <<"scaled", @>>] /\ UNCHANGED shared
     ELSE UNCHANGED <<reg, shared>>
  /\ UNCHANGED <<alone, scratch, table, cache, count>>
Store(t) ==
  /\ job[t].pc = "store"
  /\ reg' = [reg EXCEPT ![t][job[t].d] = job[t].acc]
  /\ job' = [job EXCEPT ![t] = Idle]
  /\ UNCHANGED <<alone, scratch, table, key, shared, cache, count, known>>
Next == \E t \in Threads :
          \/ \E op \in Ops, d \in Regs, a \in Regs \cup {Sh}, b \in Regs \cup {Sh}, k \in KeySets : Begin(t, op, d, a, b, k)
          \/ Prepare(t) \/ Fill(t) \/ Load(t) \/ Combine(t) \/ Store(t)
Spec == Init /\ [][Next]_vars
(* ---- the property ------------------------------------------------------ *)
(* a thread between operations holds exactly what they give alone           *)
Same == \A t \in Threads : job[t].pc = "idle" => reg[t] = alone[t]
(* during an operation only its destination may differ from that            *)
Untouched == \A t \in Threads : \A r \in Regs : job[t].d # r => reg[t][r] = alone[t][r]
KeyConstant == key = [k \in KeySets |-> k]
SharedConstant == shared = Leaf(Sh, Sh)
=============================================================================
