------------------------------ MODULE ConcTrace ------------------------------
(* C20.  Evaluations of the real library by threads.  Contents are digests.  *)
(* reg: what every register holds; memo: the result an operation had the     *)
(* first time it was evaluated on these contents (alone, in one thread, as   *)
(* the driver evaluates everything alone first); keyof: the components of    *)
(* the shared evaluation key.                                                *)
EXTENDS TraceBase
VARIABLES reg, memo, keyof
vars == <<l, reg, memo, keyof>>
None == [x \in {} |-> ""]
Pairs(ns, ds) == [n \in {ns[i] : i \in 1..Len(ns)} |-> ds[CHOOSE i \in 1..Len(ns) : ns[i] = n]]
(* the driver fills registers with contents of its own                       *)
Fill == /\ Is("regs") /\ reg' = Pairs(Ev.names, Ev.digs) @@ reg /\ UNCHANGED <<memo, keyof>>
Look == /\ Is("look")
        /\ (\A i \in 1..Len(Ev.names) : Chk(<<"register", Ev.names[i], "changed by nobody's operation", Ev.how>>, reg[Ev.names[i]] = Ev.digs[i])) = TRUE
        /\ UNCHANGED <<reg, memo, keyof>>
KeyEv == /\ Is("key")
         /\ IF Ev.name \in DOMAIN keyof
            THEN Chk(<<"evaluation changed key component", Ev.name, Ev.how>>, keyof[Ev.name] = Ev.dig) /\ UNCHANGED keyof
            ELSE keyof' = (Ev.name :> Ev.dig) @@ keyof
         /\ UNCHANGED <<reg, memo>>
Memo(op) == IF op \in DOMAIN memo THEN memo[op] ELSE None
Eval ==
  /\ Is("eval")
  /\ (\A i \in 1..Len(Ev.innames) : Chk(<<Ev.op, "register", Ev.innames[i], "changed before use", Ev.how>>, reg[Ev.innames[i]] = Ev.ins[i])) = TRUE
  /\ Chk(<<Ev.op, "changed its operand", Ev.how>>, Ev.after = Ev.ins)
  /\ Chk(<<Ev.op, "wrote outside its result", Ev.how>>, Ev.inside)
  /\ \E m \in {Memo(Ev.op)} :
       IF Ev.ins \in DOMAIN m
       THEN Chk(<<Ev.op, "another result than alone", Ev.how>>, m[Ev.ins] = Ev.outs) /\ UNCHANGED memo
       ELSE memo' = (Ev.op :> ((Ev.ins :> Ev.outs) @@ m)) @@ memo
  /\ reg' = Pairs(Ev.outnames, Ev.outs) @@ reg
  /\ UNCHANGED keyof
Init == TraceInit /\ reg = None /\ memo = None /\ keyof = None
Next == Fill \/ Look \/ KeyEv \/ Eval
Spec == Init /\ [][Next]_vars
=============================================================================
