----------------------------- MODULE ParamsTrace -----------------------------
(* C14.  Parameter records of the real library: registers of field values.  *)
EXTENDS TraceBase, Words

VARIABLES reg, names, groups

Fld(n) == CHOOSE i \in 1..Len(names) : names[i] = n

Fields == Is("fields") /\ names' = Ev.names /\ groups' = Ev.groups /\ UNCHANGED reg

(* the record describes the build: the documented parameter set              *)
Documented ==
  << <<"lvl0.n", 636>>, <<"lvl0.approx_bit", 16>>,
     <<"lvl1.nbit", 10>>, <<"lvl1.n", 1024>>, <<"lvl1.l", 3>>, <<"lvl1.Bgbit", 6>>, <<"lvl1.Bg", 64>>, <<"lvl1.approx_bit", 32>>,
     <<"lvl2.nbit", 11>>, <<"lvl2.n", 2048>>, <<"lvl2.l", 4>>, <<"lvl2.Bgbit", 9>>, <<"lvl2.Bg", 512>>, <<"lvl2.approx_bit", 64>>,
     <<"lvl10.t", 7>>, <<"lvl10.basebit", 2>>, <<"lvl20.t", 7>>, <<"lvl20.basebit", 2>>,
     <<"lvl21.t", 8>>, <<"lvl21.basebit", 3>>, <<"lvl22.t", 38>>, <<"lvl22.basebit", 1>> >>
Build ==
  /\ Is("build")
  /\ \A i \in 1..Len(names) : Chk(<<"recorded", names[i]>>, Ev.v[i] = Ev.build[i])
  /\ \A i \in 1..Len(Documented) :
       Chk(<<"documented", Documented[i]>>, Ev.v[Fld(Documented[i][1])] = OfNat(Documented[i][2], 4))
  /\ UNCHANGED <<reg, names, groups>>

Set == Is("set") /\ reg' = [reg EXCEPT ![Ev.r] = Ev.v] /\ UNCHANGED <<names, groups>>

Differ(a, b) == {i \in 1..Len(names) : reg[a][i] # reg[b][i]}
Cmp ==
  /\ Is("cmp")
  /\ \E d \in {Differ(Ev.a, Ev.b)} :
       /\ Chk(<<"equal exactly when all fields agree; differing fields:", {names[i] : i \in d}, "reported equal:", Ev.eq>>,
              Ev.eq = (d = {}) /\ Ev.ne = (d # {}))
       /\ \A g \in 1..Len(Ev.parts) :
            Chk(<<"part", g, "differing fields", {names[i] : i \in d}>>,
                (Ev.parts[g] = 1) = (\A i \in d : groups[i] # g - 1))
  /\ UNCHANGED <<reg, names, groups>>

Load ==
  /\ Is("load")
  /\ \A i \in 1..Len(names) : Chk(<<"field", names[i], "through", Ev.how>>, Ev.v[i] = reg[Ev.from][i])
  /\ reg' = [reg EXCEPT ![Ev.to] = Ev.v]
  /\ UNCHANGED <<names, groups>>

Init == TraceInit /\ reg = [i \in 0..3 |-> <<>>] /\ names = <<>> /\ groups = <<>>
Next == Fields \/ Build \/ Set \/ Cmp \/ Load
Spec == Init /\ [][Next]_<<l, reg, names, groups>>
=============================================================================
