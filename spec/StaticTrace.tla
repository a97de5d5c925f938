---------------------------- MODULE StaticTrace ----------------------------
(* Judges programs with TshStatic.                                           *)
EXTENDS TshStatic, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES cs, s, fin
vars == <<cs, s, fin>>
C == Cases[cs]
Init == cs \in 1..Len(Cases) /\ s = Start(Cases[cs]) /\ fin = FALSE
Next == /\ ~fin /\ cs' = cs
        /\ IF Done(s) THEN s' = s /\ fin' = TRUE /\ PrintT("@@" \o ToJson([id |-> C.id, v |-> Result(s)]))
           ELSE s' = Step(C, s) /\ fin' = fin
Spec == Init /\ [][Next]_vars
\* a function body never sees a local of another function: scopes are those of one function on top of the globals
ScopesBalanced == Len(s.sc) >= 1 /\ (s.f = 0 /\ s.K # << >> /\ s.K[Len(s.K)][1] = "M" => Len(s.sc) = 1)
=============================================================================
