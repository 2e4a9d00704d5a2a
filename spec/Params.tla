------------------------------- MODULE Params -------------------------------
(***************************************************************************)
(* Model of parameter records: registers holding a record of fields,       *)
(* changed field by field, compared, written to an archive and read back    *)
(* into any register whatever it held.  Compared and Archived are the field *)
(* sets that comparison and archives cover; the laws below hold exactly     *)
(* when both are all the fields.                                            *)
(***************************************************************************)
EXTENDS Integers, FiniteSets

CONSTANTS Fields, Values, Regs, Compared, Archived, MaxOps
VARIABLES reg, arc, src, ops, eq
vars == <<reg, arc, src, ops, eq>>
Default == [f \in Fields |-> 0]
None == [f \in {} |-> 0]

Init == reg = [r \in Regs |-> Default] /\ arc = None /\ src = Default /\ ops = 0 /\ eq = <<>>
Mutate == \E r \in Regs, f \in Fields, v \in Values : reg' = [reg EXCEPT ![r][f] = v] /\ UNCHANGED <<arc, src, eq>>
Compare == \E r, s \in Regs : /\ eq' = <<r, s, \A f \in Compared : reg[r][f] = reg[s][f]>>
                              /\ UNCHANGED <<reg, arc, src>>
Save == \E r \in Regs : arc' = [f \in Archived |-> reg[r][f]] /\ src' = reg[r] /\ UNCHANGED <<reg, eq>>
Load == /\ arc # None
        /\ \E r \in Regs : reg' = [reg EXCEPT ![r] = [f \in Fields |-> IF f \in DOMAIN arc THEN arc[f] ELSE reg[r][f]]]
                           /\ eq' = <<r>>
        /\ UNCHANGED <<arc, src>>
Next == ops < MaxOps /\ ops' = ops + 1 /\ (Mutate \/ Compare \/ Save \/ Load)
Spec == Init /\ [][Next]_vars

EqExact == [][(eq' # eq /\ \E r, s \in Regs : \E b \in BOOLEAN : eq' = <<r, s, b>>)
              => (eq'[3] <=> reg[eq'[1]] = reg[eq'[2]])]_vars
RoundTrip == [][\A r \in Regs : (eq' = <<r>> /\ eq # eq') => reg'[r] = src]_vars
=============================================================================
