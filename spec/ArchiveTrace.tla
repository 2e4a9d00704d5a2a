---------------------------- MODULE ArchiveTrace ----------------------------
(* C13.  Histories of saves and loads of the real library.  An object is a   *)
(* function from the names of the components it holds to digests of their    *)
(* contents; what the real object holds is observed after every operation.   *)
EXTENDS TraceBase

VARIABLES obj, arc, res
vars == <<l, obj, arc, res>>
None == [c \in {} |-> ""]
(* a snapshot is a sequence of <<name, digest>> pairs                        *)
Content(s) == [n \in {s[i][1] : i \in 1..Len(s)} |-> (CHOOSE i \in 1..Len(s) : s[i][1] = n) ]
Fn(s) == LET at == Content(s) IN [n \in DOMAIN at |-> s[at[n]][2]]
Holds(o) == IF o \in DOMAIN obj THEN obj[o] ELSE None
With(f, k, v) == [n \in DOMAIN f \cup {k} |-> IF n = k THEN v ELSE f[n]]
Without(f, k) == [n \in DOMAIN f \ {k} |-> f[n]]
Diff(f, g) == {n \in DOMAIN f \cup DOMAIN g : n \notin DOMAIN f \/ n \notin DOMAIN g \/ f[n] # g[n]}
Observed(o, want) ==
  \E got \in {Fn(Ev.snap)} :
     Chk(<<Ev.ev, "object", o, "components lost, gained or altered:", Diff(want, got), "held before:", DOMAIN Holds(o)>>, got = want)

New == Is("new") /\ obj' = None /\ arc' = None /\ UNCHANGED res
Fresh == /\ Is("fresh") /\ obj' = With(obj, Ev.obj, Fn(Ev.snap)) /\ UNCHANGED <<arc, res>>
Put == /\ Is("put")
       /\ \E want \in {With(Holds(Ev.obj), Ev.slot, Ev.dig)} :
            Observed(Ev.obj, want) /\ obj' = With(obj, Ev.obj, want)
       /\ UNCHANGED <<arc, res>>
Drop == /\ Is("drop")
        /\ \E want \in {Without(Holds(Ev.obj), Ev.slot)} :
             Observed(Ev.obj, want) /\ obj' = With(obj, Ev.obj, want)
        /\ UNCHANGED <<arc, res>>
Copy == /\ Is("copy")
        /\ Observed(Ev.obj, Holds(Ev.from)) /\ obj' = With(obj, Ev.obj, Holds(Ev.from))
        /\ UNCHANGED <<arc, res>>
(* saved twice: the same bytes, and the object itself is left as it was       *)
Save == /\ Is("save")
        /\ Chk(<<"the same bytes both times", Ev.obj>>, Ev.bytes = Ev.again)
        /\ Observed(Ev.obj, Holds(Ev.obj))
        /\ arc' = With(arc, Ev.arc, Holds(Ev.obj))
        /\ UNCHANGED <<obj, res>>
Load == /\ Is("load")
        /\ Chk(<<"whole archive read", Ev.obj>>, Ev.rest = 0)
        /\ Observed(Ev.obj, arc[Ev.arc])
        /\ obj' = With(obj, Ev.obj, arc[Ev.arc])
        /\ UNCHANGED <<arc, res>>

(* the first part of an archive is never taken for a whole one; what the     *)
(* object holds after the refusal is unspecified                             *)
Torn == /\ Is("torn")
        /\ Chk(<<"part of an archive refused", Ev.obj, "bytes", Ev.at, "of", Ev.size>>, Ev.refused)
        /\ UNCHANGED <<obj, arc, res>>

(* a named result computed with and without archives in between              *)
Result == /\ Is("result")
          /\ Chk(<<"result", Ev.what>>, Ev.name \in DOMAIN res => res[Ev.name] = Ev.dig)
          /\ res' = With(res, Ev.name, Ev.dig)
          /\ UNCHANGED <<obj, arc>>

Init == TraceInit /\ obj = None /\ arc = None /\ res = None
Next == New \/ Fresh \/ Put \/ Drop \/ Copy \/ Save \/ Load \/ Torn \/ Result
Spec == Init /\ [][Next]_vars
=============================================================================
