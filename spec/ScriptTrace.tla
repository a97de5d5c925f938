----------------------------- MODULE ScriptTrace -----------------------------
(* Reads the structures of emitted scripts (one case per script).            *)
EXTENDS Script, Json, IOUtils, TLC
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES cs, i, s, fin
vars == <<cs, i, s, fin>>
C == Cases[cs]
Init == cs \in 1..Len(Cases) /\ i = 0 /\ s = Read0 /\ fin = FALSE
Problems ==
  Text(s)
  \o (IF C.allcalled /\ Len(C.orph) > 0 THEN <<"routine which is never used: " \o C.orph[1].n>> ELSE << >>)
  \o (IF C.flow THEN FlowBad(C.nodes, C.start, C.T, C.b, C.fs) ELSE IF Shared(C.nodes, C.start) THEN <<"a jump leaves its routine">> ELSE << >>)
  \o BashText(C.bd, C.bu, C.syn, C.allcalled)
RECURSIVE ReadTo(_, _, _)
ReadTo(t, k, n) == IF k > n THEN t ELSE ReadTo(Read(t, C.ev[k]), k + 1, n)
Step == 200
Next == /\ ~fin /\ cs' = cs
        /\ IF i < Len(C.ev) THEN /\ i' = (IF i + Step < Len(C.ev) THEN i + Step ELSE Len(C.ev)) /\ s' = ReadTo(s, i + 1, i') /\ fin' = FALSE
           ELSE /\ i' = i /\ s' = s /\ fin' = TRUE
                /\ LET p == Problems IN IF p = << >> THEN TRUE ELSE PrintT("@@" \o ToJson([id |-> C.id, why |-> p]))
Spec == Init /\ [][Next]_vars
BlocksNested == Len(s.d) <= s.nb
=============================================================================
